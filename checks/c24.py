"""Singletons: one object per name."""
from engine.explore import Scenario

HEAD = '''
import properties.extras
Singleton = properties.extras.Singleton
made = []
class S(Singleton):
    _SINGLETONS = {}
    name = Property('n')
    p = Property('p', required=False)
    q = Property('q', required=False)
class T(S):
    extra = Property('e', required=False)
class Own(S):
    _SINGLETONS = {}
class Text(Singleton):
    _SINGLETONS = {}
    name = String('n')
    i = Integer('i', required=False)
class Loose(Singleton):
    _SINGLETONS = {}
    p = Property('p', required=False)
'''


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 300)
        S.append(Scenario(name, HEAD + src, **k))

    # -------------------------------------------------------- construction
    add('known', '''
cls = pick(S, T, Own, Loose, Singleton)
name = sym('name')
assume(name is not None)
assume(name is not properties.undefined)
v = sym('v')
assume(v is not None)
assume(v is not properties.undefined)
a = cls(name, p=v) if cls is not Singleton else cls(name)
reg = cls._SINGLETONS
must(len(reg) == 1 and reg[name] is a, 'a new object is registered under its name')
must(a.name is name or a.name == name, 'an object has the name it was built with')
how = pick('bare', 'same', 'other', 'wrong', 'positional', 'keyword')
t0 = now()
if how == 'bare':
    b = cls(name)
elif how == 'same':
    b = cls(name, p=v)
elif how == 'other':
    b = cls(name, p=sym('w'))
elif how == 'wrong':
    b = cls(name, nothing=1)
elif how == 'positional':
    b = cls(name, 1, 2)
else:
    b = cls(name=name)
must(untouched(a, a._backend, reg, since=t0), 'nothing else changes')
must(b is a, 'a known name gives the existing object')
''')
    add('two-names', '''
cls = pick(S, Text, Loose)
n, m = pick(('a', 'b'), ('a', 'a'), ('a', 'A'), ('a', ''), ('', ''), ('a', 'a '))
a = cls(n)
b = cls(m)
must((a is b) == (n == m), 'a name identifies one object')
must(cls(n) is a and cls(m) is b, 'a name identifies one object')
must(set(cls._SINGLETONS) == {n, m}, 'every name is registered once')
''')
    add('kinds-of-names', '''
n, m = pick((1, 2), (1, '1'), (None, 0), (None, None), (('a', 1), ('a', 2)), (0, ''), (1, 1.0), (True, 1), (b'a', 'a'))
a = Loose(n)
b = Loose(m)
must((a is b) == (n == m), 'a name identifies one object')
must(a._singleton_id is n or a._singleton_id == n, 'the identity is the name the object was built with')
''')
    add('reinitialised', '''
class K(Singleton):
    _SINGLETONS = {}
    def __init__(self, name, **kwargs):
        made.append(name)
        super(K, self).__init__(name, **kwargs)
    p = Property('p', required=False)
a = K('n', p=1)
must(made == ['n'], 'a new object is initialised')
b = K('n', p=2)
must(b is a and made == ['n'] and a.p == 1, 'a known object is not initialised again')
c = K('m', p=2)
must(c is not a and made == ['n', 'm'] and c.p == 2, 'a new object is initialised')
''')
    add('arguments', '''
v, w = sym('v'), sym('w')
assume(v is not properties.undefined)
assume(w is not properties.undefined)
a = S('n', p=v, q=w)
must(a.p is v and a.q is w, 'a new object takes its arguments')
must(a.name == 'n', 'a new object takes its name')
must(S('m', q=v).p is None, 'objects do not share values')
''')
    add('coerced-names', '''
class Up(Singleton):
    _SINGLETONS = {}
    name = String('n', change_case='upper', strip=' ')
a = Up('ab')
must(a.name == 'AB', 'the name property may convert the name')
must(Up('ab') is a and a._singleton_id == 'ab' and a.serialize()['_singleton_id'] == 'ab',
     'the identity is the name the object was built with')
must(Up.deserialize(a.serialize()) is a, 'an object is found by its data')
b = Up('AB')
must(b is not a and b.name == 'AB' and Up('AB') is b, 'the identity is the name the object was built with')
must(set(Up._SINGLETONS) == {'ab', 'AB'}, 'the identity is the name the object was built with')
Up._SINGLETONS.clear()
c = Up.deserialize({'_singleton_id': 'cd', 'name': 'EF'})
must(c._singleton_id == 'cd' and c.name == 'EF' and Up('cd') is c, 'the recorded identity and name are restored')
''')
    add('changing-names', '''
class N(Singleton):
    _SINGLETONS = {}
    name = Property('n')
    @properties.validator('name')
    def _change(self, change):
        change['value'] = 'changed'
a = N('n')
must(a.name == 'changed' and a._singleton_id == 'n' and N('n') is a, 'the identity is the name the object was built with')
''')
    add('falsy-names', '''
n = pick('', 0, False, ())
a = Loose(n)
must(Loose(n) is a, 'a name identifies one object')
must(Loose.deserialize(a.serialize()) is a, 'an object is found by its data')
must(S.deserialize({'_singleton_id': n}) is S(n), 'an object is found by its data')
must(S.deserialize({'name': n}) is S(n), 'an object is found by its data')
''')
    # ------------------------------------------------------------- failure
    add('failing', '''
class K(Singleton):
    _SINGLETONS = {}
    def __init__(self, name, bad=None, **kwargs):
        if bad == 'before':
            raise RuntimeError('no')
        super(K, self).__init__(name, **kwargs)
        if bad == 'after':
            raise RuntimeError('no')
    name = String('n')
    p = Integer('p', required=False)
old = K('old')
how = pick('before', 'after', 'value', 'unknown', 'name', 'validator')
kw = {'before': {'bad': 'before'}, 'after': {'bad': 'after'}, 'value': {'p': 'text'}, 'unknown': {'zz': 1},
      'name': {}, 'validator': {'p': [1]}}[how]
name = 5 if how == 'name' else 'n'
t0 = now()
r = outcome(K(name, **kw))
must(untouched(old, old._backend, K._SINGLETONS, since=t0), 'nothing else changes')
must(not r.ok, 'the failure is reported')
must(name not in K._SINGLETONS, 'an object that could not be built is not registered')
if how != 'name':
    k = K('n', p=3)
    must(k.p == 3 and K('n') is k, 'a name can be used after a failure')
must(K('old') is old, 'other objects stay registered')
''')
    add('failing-known', '''
a = Text('n', i=1)
for r in [outcome(Text('n', i='x')), outcome(Text('n', zz=3)), outcome(Text('n', name=3)) if False else outcome(Text('n'))]:
    must(r.ok and r.value is a, 'a known name gives the existing object')
must(a.i == 1, 'a known object is not initialised again')
''')
    # ---------------------------------------------------------- registries
    add('registries', '''
a = S('n')
must(T('n') is a and type(T('n')) is S, 'classes on one registry share names')
b = Own('n')
must(b is not a and type(b) is Own and Own('n') is b, 'a new registry has its own names')
must(S('n') is a, 'a new registry leaves the other alone')
t = T('t')
must(S('t') is t and type(t) is T, 'classes on one registry share names')
c = Singleton('n')
must(c is not a and c is not b and Singleton('n') is c, 'a new registry has its own names')
class U(Own):
    pass
must(U('n') is b, 'classes on one registry share names')
class V(Singleton):
    pass
must(V('n') is c, 'classes on one registry share names')
must(set(S._SINGLETONS) == {'n', 't'} and set(Own._SINGLETONS) == {'n'} and set(Singleton._SINGLETONS) == {'n'},
     'names are registered in the nearest registry')
''')
    # ------------------------------------------------------------- renames
    add('renames', '''
cls = pick(S, Text, Loose)
a = cls('n')
new = pick('m', 'n', '')
a.name = new
must(cls('n') is a, 'a renamed object keeps its identity')
must(a._singleton_id == 'n', 'a renamed object keeps its identity')
if new != 'n':
    b = cls(new)
    must(b is not a, 'the new name of an object is no identity')
    must(b.name == new and a.name == new, 'objects may have equal names')
    must(b.serialize()['_singleton_id'] == new, 'serializing records the identity')
must(a.serialize()['_singleton_id'] == 'n', 'serializing records the identity')
must(cls.deserialize(a.serialize()) is a, 'a renamed object is found by its data')
''')
    # --------------------------------------------------------- serializing
    for cn in ('S', 'D', 'Loose'):
        add('serialize-' + cn, '''
class D(Singleton):
    _SINGLETONS = {}
    name = String('n')
    p = Property('p', required=False)
    @properties.Integer('d')
    def dyn(self):
        return 7
cls = %s
v = sym('v')
assume(v is not None)
assume(v is not properties.undefined)
a = cls('n', p=v)
if pick(True, False):
    a.name = 'm'
opts = {}
if pick(True, False):
    opts['include_class'] = pick(True, False)
if pick(True, False):
    opts['save_dynamic'] = pick(True, False)
if pick(True, False):
    opts['more'] = sym('more')
plain = HasProperties.serialize(a, **opts)
t0 = now()
out = a.serialize(**opts)
must(untouched(a, a._backend, cls._SINGLETONS, opts, since=t0), 'nothing else changes')
must(out['_singleton_id'] == 'n', 'serializing records the identity')
must(set(out) == set(plain) | {'_singleton_id'}, 'nothing else is recorded')
for k in plain:
    must(same(out[k], plain[k]) or out[k] == plain[k], 'the rest is what any object records')
must(('__class__' in out) == opts.get('include_class', True), 'the class name is recorded unless refused')
must(('dyn' in out) == (cls is D and opts.get('save_dynamic', False)), 'dynamic values are recorded when asked')
out2 = a.serialize(**opts)
must(out2 is not out and out2['_singleton_id'] == 'n', 'serializing can be repeated')
''' % cn)
    add('serialize-options', '''
heard = []
class P(Property):
    class_info = 'p'
    def serialize(self, value, **kwargs):
        heard.append(kwargs)
        return value
class K(Singleton):
    _SINGLETONS = {}
    p = P('p')
k = K('n', p=1)
more = sym('more')
inc, dyn = pick(True, False), pick(True, False)
k.serialize(include_class=inc, save_dynamic=dyn, more=more)
must(len(heard) == 1, 'every value is serialized once')
must(heard[0]['include_class'] is inc and heard[0]['save_dynamic'] is dyn and heard[0]['more'] is more,
     'options reach the properties')
''')
    # ------------------------------------------------------- deserializing
    for cn in ('S', 'T', 'Text'):
        add('deserialize-known-' + cn, '''
cls = %s
asked = pick(cls, S) if cls is not Text else Text
a = cls('n')
a.name = pick('n', 'm')
data = pick({'_singleton_id': 'n'}, {'name': 'n'}, {'_singleton_id': 'n', 'name': 'zz'}, {'_singleton_id': 'n', 'name': None},
            {'_singleton_id': 'n', 'p': 4, 'i': 4}, {'name': 'n', 'p': 4, 'i': 'bad'}, {'_singleton_id': 'n', '__class__': 'Nope'})
before = dict(data)
opts = pick({}, {'trusted': True, 'more': 1}, {'strict': True, 'assert_valid': True})
t0 = now()
b = asked.deserialize(data, **opts)
must(untouched(a, a._backend, asked._SINGLETONS, data, opts, since=t0), 'nothing else changes')
must(b is a, 'data of a known identity gives the existing object')
must(data == before, 'the data is not changed')
''' % cn)
    add('deserialize-refused', '''
a = S('n')
OTHER = sym('other')
data = pick({}, {'p': 1}, {'_singleton_id': None}, {'name': None}, {'_singleton_id': None, 'name': 'n'}, [], None, 'n', 5,
            ('n',), ['name', 'n'], OTHER)
if same(data, OTHER):
    assume(not isinstance(data, dict))
opts = pick({}, {'trusted': True}, {'strict': True, 'assert_valid': True})
if not isinstance(data, dict):
    t0 = now()
    r = outcome(S.deserialize(data, **opts))
    must(untouched(a, a._backend, S._SINGLETONS, since=t0), 'nothing else changes')
    must(not r.ok and isinstance(r.error, ValueError), 'what is no dictionary is refused')
elif data.get('_singleton_id') is None and (data.get('name') is None or '_singleton_id' in data):
    t0 = now()
    r = outcome(S.deserialize(data, **opts))
    must(untouched(a, a._backend, S._SINGLETONS, since=t0), 'nothing else changes')
    must(not r.ok and isinstance(r.error, ValueError), 'data without an identity is refused')
''')
    for cn in ('S', 'T', 'Text'):
        add('deserialize-new-' + cn, '''
cls = %s
a = S('other')
ident, name = pick(('n', None), ('n', 'n'), ('n', 'm'), (None, 'n'), ('n', 'absent'))
data = {}
if ident is not None:
    data['_singleton_id'] = ident
if name != 'absent' and not (name is None and ident is None):
    data['name'] = name
if pick(True, False):
    data['i' if cls is Text else 'p'] = 3
before = dict(data)
opts = pick({}, {'trusted': True}, {'assert_valid': True}, {'strict': True}, {'more': 1})
t0 = now()
r = outcome(cls.deserialize(data, **opts))
must(untouched(data, a, a._backend, since=t0), 'nothing else changes')
must(r.ok, 'data with an identity is accepted')
n = r.value
must(data == before, 'the data is not changed')
must(n is not a and type(n) is cls, 'data of a new identity gives a new object')
must(n._singleton_id == 'n' and cls._SINGLETONS['n'] is n, 'a new object is registered under its identity')
must(set(cls._SINGLETONS) == ({'n'} if cls is Text else {'n', 'other'}), 'a new object is registered under its identity')
must(n.name == (name if name and name != 'absent' else 'n'), 'the recorded name is restored')
if 'i' in data or 'p' in data:
    must((n.i if cls is Text else n.p) == 3, 'recorded values are restored')
must(cls.deserialize(data) is n, 'a known identity gives the existing object')
must(cls('n') is n, 'a known identity gives the existing object')
must(n.serialize(include_class=False)['_singleton_id'] == 'n', 'serializing records the identity')
''' % cn)
    add('deserialize-renamed-twice', '''
a = Text('n')
a.name = 'm'
b = Text('m')
b.name = 'n'
da, db = a.serialize(), b.serialize()
must(Text.deserialize(da) is a and Text.deserialize(db) is b, 'data finds the object by identity, not by name')
Text._SINGLETONS.clear()
first = pick(True, False)
if first:
    c = Text.deserialize(da)
    d = Text.deserialize(db)
else:
    d = Text.deserialize(db)
    c = Text.deserialize(da)
must(c is not d, 'different identities give different objects')
must(c.name == 'm' and d.name == 'n', 'the recorded names are restored')
must(c._singleton_id == 'n' and d._singleton_id == 'm', 'the recorded identities are restored')
must(Text('n') is c and Text('m') is d, 'the recorded identities are restored')
''')
    add('deserialize-options', '''
heard = []
class P(Property):
    class_info = 'p'
    def deserialize(self, value, **kwargs):
        heard.append(kwargs)
        return value
class K(Singleton):
    _SINGLETONS = {}
    name = String('n')
    p = P('p', required=pick(True, False))
more = sym('more')
tr, st, av = pick(True, False), pick(True, False), pick(True, False)
data = {'_singleton_id': 'n', 'p': 3}
extra = pick(True, False)
if extra:
    data['unknown'] = 3
missing = pick(True, False)
if missing:
    del data['p']
r = outcome(K.deserialize(data, trusted=tr, strict=st, assert_valid=av, more=more))
good = not (extra and st) and not (missing and av and K._props['p'].required)
must(r.ok == good, 'strictness and validity are checked when asked')
if r.ok and not missing:
    must(len(heard) == 1, 'every value is deserialized once')
    must(heard[0]['trusted'] is tr and heard[0]['strict'] is st and heard[0]['more'] is more, 'options reach the properties')
''')
    add('deserialize-failing', '''
data = pick({'_singleton_id': 'n', 'i': 'text'}, {'_singleton_id': 'n', 'zz': 1, '__class__': 'Text'}, {'_singleton_id': 5},
            {'name': 5}, {'_singleton_id': 'n', '__class__': 'Else'})
strict = True
t0 = now()
r = outcome(Text.deserialize(data, strict=strict))
must(untouched(data, Text._SINGLETONS, since=t0), 'nothing else changes')
must(not r.ok, 'bad data is refused')
must(len(Text._SINGLETONS) == 0, 'an object that could not be built is not registered')
k = Text('n', i=3)
must(k.i == 3, 'a name can be used after a failure')
''')
    add('deserialize-trusted', '''
k = pick(True, False)
data = T('n', extra=4).serialize()
must(data['__class__'] == 'T', 'the class name is recorded')
S._SINGLETONS.clear()
n = S.deserialize(data, trusted=k)
must(type(n) is (T if k else S), 'the recorded class is used when trusted')
must(S('n') is n and T('n') is n and n._singleton_id == 'n', 'a new object is registered under its identity')
''')
    add('nested', '''
class Holder(HasProperties):
    s = Instance('s', Text)
    many = properties.List('m', Instance('', Text), default=list)
a, b = Text('a'), Text('b')
a.name = 'b'
h = Holder(s=a, many=[a, b, a])
out = h.serialize()
must(out['s']['_singleton_id'] == 'a' and [x['_singleton_id'] for x in out['many']] == ['a', 'b', 'a'],
     'serializing records the identity')
if pick(True, False):
    Text._SINGLETONS.clear()
g = Holder.deserialize(out)
must(g.s is g.many[0] and g.s is g.many[2] and g.many[1] is not g.s, 'data of one identity gives one object')
must(g.s is Text('a') and g.many[1] is Text('b'), 'data of one identity gives one object')
must(g.s.name == 'b' and g.many[1].name == 'b', 'the recorded names are restored')
c = properties.copy(a)
must(c is Text('a'), 'a copy of a singleton is the singleton')
''')
    # ------------------------------------------------------------ histories
    add('history', '''
known = {}
def step(i):
    op = pick('make-a', 'make-b', 'rename', 'load-a', 'load-b')
    if op in ('make-a', 'make-b', 'load-a', 'load-b'):
        n = op[-1]
        if op[:4] == 'make':
            o = Text(n, i=i)
        else:
            o = Text.deserialize({'_singleton_id': n, 'name': 'a', 'i': i})
        if n in known:
            must(o is known[n][0] and o.i == known[n][1], 'a known identity gives the existing object as it is')
        else:
            known[n] = (o, i)
            must(o.i == i, 'a new object takes its values')
    else:
        for n in known:
            known[n][0].name = 'b'
for i in range(3):
    step(i)
for n in known:
    must(Text(n) is known[n][0], 'a name identifies one object')
must(set(Text._SINGLETONS) == set(known), 'only identities are registered')
''', paths=400)
    return S
