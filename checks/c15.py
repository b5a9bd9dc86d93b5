"""Deserialization obeys trust, strictness and validity options."""
from engine.explore import Scenario
from checks.c14 import TYPES

HEAD = '''
class In(HasProperties):
    v = Property('d', required=False)
class Foreign(object):
    pass
def get(self):
    return None
def options():
    opts = pick({}, {'trusted': True}, {'strict': True}, {'trusted': True, 'strict': True},
                {'trusted': False, 'strict': False})
    opts = dict(opts)
    opts['mult'] = sym('mult')
    return opts
def reached(call, opts, union=False):
    """the options of the outermost call are those of this call"""
    args, kwargs = call
    for name in opts:
        if name == 'assert_valid':
            continue
        if not (name in kwargs and kwargs[name] is opts[name]):
            return False
    for name in kwargs:
        if name in opts or name == 'assert_valid' and union:
            continue
        if name in ('trusted', 'strict') and not kwargs[name]:
            continue
        return False
    return True
'''

LEAF = '''
js, ss = [], []
class Leaf(Property):
    @staticmethod
    def from_json(value, **kwargs):
        js.append(((value,), dict(kwargs)))
        return ('loaded', value)
def de(value, **kwargs):
    ss.append(((value,), dict(kwargs)))
    return ('deserialized', value)
'''


LIKE = '''
class Like(object):
    """looks like a dictionary"""
    d = {}
    def get(self, k, default=None):
        return self.d.get(k, default)
    def items(self):
        return self.d.items()
    def keys(self):
        return self.d.keys()
    def copy(self):
        return self
    def __contains__(self, k):
        return k in self.d
    def __getitem__(self, k):
        return self.d[k]
    def __iter__(self):
        return iter(self.d)
    def __len__(self):
        return len(self.d)
'''


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 300)
        S.append(Scenario(name, HEAD + src, **k))

    for name, make in TYPES:
        if not name.startswith('Dynamic'):
            add('deserializer-' + name, LEAF + '''
p = %s
x = pick(None, sym('x'))
opts = options()
r = p.deserialize(x, **opts)
must(r[0] == 'deserialized' and r[1] is x, 'a registered deserializer decides')
must(len(ss) == 1, 'the deserializer runs once')
must(ss[0][0][0] is x, 'the deserializer gets the value')
must(reached(ss[0], opts), 'the deserializer gets the options')
''' % (make % ', deserializer=de'), paths=80)
            add('plain-deserializer-' + name, '''
p = %s
x = pick(None, sym('x'))
opts = options()
r = p.deserialize(x, **opts)
must(r[0] == 'plain' and r[1] is x, 'a deserializer taking only the value decides')
''' % (make % ", deserializer=lambda value: ('plain', value)"), paths=80)
        add('none-' + name, '''
p = %s
opts = options()
must(p.deserialize(None, **opts) is None, 'None deserializes to None')
''' % (make % ''), paths=40)

    # -- which class is constructed
    for K in ('Base', 'A', 'Sub'):
        add('class-' + K, '''
class Base(HasProperties):
    _REGISTRY = dict()
    v = Property('d', required=False)
class A(Base):
    a = Property('d', required=False)
class B(Base):
    a = Property('d', required=False)
class Sub(A):
    s = Property('d', required=False)
class Other(HasProperties):
    v = Property('d', required=False)
K = %s
name = pick('absent', None, '', 'Base', 'A', 'B', 'Sub', 'Other', 'In', 'HasProperties', 'Nowhere', 7, sym('name'))
data = {'v': sym('v'), '__class__': name}
if name == 'absent':
    del data['__class__']
trusted, strict = pick(True, False), pick(True, False)
r = outcome(K.deserialize(data, trusted=trusted, strict=strict))
named = data.get('__class__')
known = {'Base': Base, 'A': A, 'B': B, 'Sub': Sub}
if not named or named == K.__name__:
    must(r.ok and type(r.value) is K, 'without a differing class name the class itself is constructed')
elif trusted and named in known:
    must(r.ok and type(r.value) is known[named], 'trusted data selects a class of the registry')
elif strict:
    must(not r.ok and isinstance(r.error, ValueError), 'in strict mode a differing class name raises')
else:
    must(r.ok and type(r.value) is K, 'otherwise the class itself is constructed')
must(len(K._REGISTRY) == 4, 'the registry is not changed')
''' % K, paths=1500)
    add('class-default', '''
class A(HasProperties):
    v = Property('d', required=False)
class B(HasProperties):
    v = Property('d', required=False)
how = pick('none', 'untrusted', 'strict-only')
data = {'__class__': pick('B', 'HasProperties', 'In', sym('n')), 'v': 1}
if how == 'none':
    r = outcome(A.deserialize(data))
elif how == 'untrusted':
    r = outcome(A.deserialize(data, trusted=False))
else:
    r = outcome(A.deserialize(data, strict=pick(True, False)))
must(not r.ok or type(r.value) is A, 'untrusted data never changes which class is constructed')
''', paths=100)
    add('same-name', '''
class A(HasProperties):
    v = Property('d', required=False)
first = A
class A(HasProperties):
    w = Property('d', required=False)
r = outcome(first.deserialize({'__class__': 'A', 'v': 1}, trusted=pick(True, False), strict=pick(True, False)))
must(r.ok and type(r.value) is first and r.value.v == 1, 'the name of the class itself selects the class itself')
''')
    add('extras-class', '''
class U(properties.extras.HasUID):
    v = Property('d', required=False)
class W(U):
    pass
trusted, strict = pick(True, False), pick(True, False)
name = pick('U', 'W', 'In', 'Nowhere')
r = outcome(U.deserialize({'__root__': 'r', 'r': {'__class__': name, 'uid': 'r', 'v': 1}}, trusted=trusted, strict=strict))
if name == 'U':
    must(r.ok and type(r.value) is U, 'the class itself is constructed')
elif trusted and name == 'W':
    must(r.ok and type(r.value) is W, 'trusted data selects a class of the registry')
elif strict:
    must(not r.ok and isinstance(r.error, ValueError), 'in strict mode a differing class name raises')
else:
    must(r.ok and type(r.value) is U, 'otherwise the class itself is constructed')
''')
    add('singleton-class', '''
class U(properties.extras.Singleton):
    name = String('d')
    v = Property('d', required=False)
class W(U):
    pass
trusted, strict = pick(True, False), pick(True, False)
name = pick('U', 'W', 'In', 'Nowhere')
r = outcome(U.deserialize({'__class__': name, '_singleton_id': 'one', 'v': 1, 'name': 'one'}, trusted=trusted, strict=strict))
if name == 'U':
    must(r.ok and type(r.value) is U, 'the class itself is constructed')
elif trusted and name == 'In':
    must(not r.ok or type(r.value) is In, 'trusted data selects a class of the registry')
elif trusted and name == 'W':
    must(r.ok and type(r.value) is W, 'trusted data selects a class of the registry')
elif strict:
    must(not r.ok and isinstance(r.error, ValueError), 'in strict mode a differing class name raises')
else:
    must(r.ok and type(r.value) is U, 'otherwise the class itself is constructed')
''')

    # -- unknown keys
    for kn, keys in (('fixed', "None, 'q', 'plain', 'method', '_backend', '_props', 'dyn', '__init__'"), ('any', "sym('key', str)")):
        add('keys-' + kn, LEAF + '''
class A(HasProperties):
    a = Leaf('d', required=False)
    g = GettableProperty('d')
    plain = 5
    old = Renamed('a', warn=False)
    def method(self):
        return 1
    @Property('d')
    def dyn(self):
        return 1
class K(A):
    b = Leaf('d', required=False)
data = {}
values = {}
have = pick((), ('a', 'g'), ('b',), ('a', 'b', 'g'))
for n in ('a', 'b', 'g'):
    if n in have:
        values[n] = sym('v_' + n)
        assume(values[n] is not None and values[n] is not undefined)
        data[n] = values[n]
extra = pick(%s)
if extra is not None:
    data[extra] = sym('v_extra')
opts = options()
before = dict(data)
r = outcome(K.deserialize(data, **opts))
known = extra is None or extra in ('a', 'b', 'g', 'old', 'dyn', '__class__')
if opts.get('strict', False) and not known:
    must(not r.ok and isinstance(r.error, ValueError), 'in strict mode an unknown key raises')
elif extra in ('a', 'b', 'g', 'old', 'dyn', '__class__') and extra != 'dyn':
    stop()
else:
    must(r.ok, 'unknown keys are ignored')
    k = r.value
    for n in ('a', 'b', 'g'):
        if n not in values:
            must(n not in k._backend, 'a property without an entry has no value')
        elif n == 'g':
            must(k._backend['g'] is values['g'], 'every entry is loaded')
        else:
            must(k._backend[n][0] == 'loaded' and k._backend[n][1] is values[n], 'every entry is loaded')
    must(set(k._backend) == set(values), 'nothing else is stored')
    must(k.plain == 5 and k.method() == 1, 'attributes that are no properties are not touched')
    for c in js:
        must(reached(c, opts), 'the conversion gets the options')
must(data == before, 'the data is not altered')
''' % keys, paths=900, wall=60)

    # -- input that is no dictionary
    add('no-dictionary', LIKE + '''
class K(HasProperties):
    a = Property('d', required=False)
x = pick(None, 1, 'a', [], [('a', 1)], (), {'a'}, K, Like(), sym('x'))
assume(not isinstance(x, dict))
opts = options()
opts['assert_valid'] = pick(True, False)
r = outcome(K.deserialize(x, **opts))
must(not r.ok and isinstance(r.error, ValueError), 'input that is no dictionary is rejected')
k = K()
r = outcome(Instance('d', K).deserialize(x, **opts))
if x is None:
    must(r.ok and r.value is None, 'None deserializes to None')
else:
    must(not r.ok and isinstance(r.error, ValueError), 'input that is no dictionary is rejected')
''', paths=200)
    add('no-dictionary-uid', LIKE + '''
x = pick(None, 1, 'a', [], [('a', 1)], Like(), sym('x'))
assume(not isinstance(x, dict))
cls = pick(properties.extras.HasUID, properties.extras.Singleton)
r = outcome(cls.deserialize(x, trusted=pick(True, False)))
must(not r.ok and isinstance(r.error, ValueError), 'input that is no dictionary is rejected')
''', paths=200)

    # -- validity
    add('valid', '''
F = fn('F', ValidationError)
class K(HasProperties):
    a = Property('d')
    b = Property('d', required=False)
    @validator
    def _check(self):
        return F(self.b)
data = {'b': sym('b')}
assume(data['b'] is not undefined)
has_a = pick(True, False)
if has_a:
    data['a'] = 1
asked = pick(True, False)
opts = options()
if asked or pick(True, False):
    opts['assert_valid'] = asked
r = outcome(K.deserialize(data, **opts))
if not asked:
    must(r.ok and len(calls_to(F)) == 0, 'validity is checked only when requested')
else:
    bad = not has_a
    f = outcome(F(data['b']))
    if not f.ok or f.value is False:
        bad = True
    if bad:
        must(not r.ok and isinstance(r.error, ValidationError), 'requested validity checking rejects an invalid result')
    else:
        must(r.ok and r.value.a == 1, 'requested validity checking accepts a valid result')
''', paths=300)
    add('valid-overridden', '''
F = fn('F')
class K(HasProperties):
    a = Property('d')
    def validate(self):
        return F()
r = outcome(K.deserialize({'a': 1}, assert_valid=True, strict=pick(True, False)))
if F():
    must(r.ok, 'a valid result is returned')
else:
    must(not r.ok and isinstance(r.error, ValidationError), 'a result that calls itself invalid is rejected')
''')
    add('valid-nested', '''
class In(HasProperties):
    v = Integer('d')
    w = Integer('d', required=False)
class K(HasProperties):
    i = Instance('d', In, required=False)
    l = List('d', In, required=False, default=undefined)
    d = Dictionary('d', value_prop=In, required=False, default=undefined)
    u = Union('d', [Integer('d'), In], required=False)
good, bad = {'v': 1}, {'w': 1}
which = pick('i', 'l', 'd', 'none')
data = {'i': bad if which == 'i' else good,
        'l': [good, bad if which == 'l' else good],
        'd': {'q': bad if which == 'd' else good}}
asked = pick(True, False)
r = outcome(K.deserialize(data, assert_valid=asked))
if which == 'none' or not asked:
    must(r.ok, 'validity is checked only when requested')
else:
    must(not r.ok and isinstance(r.error, ValidationError), 'requested validity checking rejects an invalid result at every level')
''')
    add('valid-uid', '''
class U(properties.extras.HasUID):
    v = Integer('d')
    n = properties.extras.Pointer('d', properties.extras.HasUID, required=False)
which = pick('none', 'root')
data = {'__root__': 'a', 'a': {'uid': 'a', 'v': 1}}
if which == 'root':
    del data['a']['v']
asked = pick(True, False)
r = outcome(U.deserialize(data, assert_valid=asked))
if which == 'none' or not asked:
    must(r.ok, 'validity is checked only when requested')
else:
    must(not r.ok and isinstance(r.error, ValidationError), 'requested validity checking rejects an invalid result')
''')
    add('valid-singleton', '''
class U(properties.extras.Singleton):
    name = String('d')
    v = Integer('d')
which = pick('none', 'bad')
data = {'_singleton_id': 'a', 'name': 'a', 'v': 1}
if which == 'bad':
    del data['v']
asked = pick(True, False)
r = outcome(U.deserialize(data, assert_valid=asked))
if which == 'none' or not asked:
    must(r.ok, 'validity is checked only when requested')
else:
    must(not r.ok and isinstance(r.error, ValidationError), 'requested validity checking rejects an invalid result')
''')

    # -- nesting
    NEST = [
        ('list', "List('d', Instance('d', In))", '[A, B]', '[k.x[0], k.x[1]]', 2),
        ('list-class', "List('d', In)", '[A, B]', '[k.x[0], k.x[1]]', 2),
        ('list-list', "List('d', List('d', In))", '[[A], [B]]', '[k.x[0][0], k.x[1][0]]', 2),
        ('tuple', "Tuple('d', In)", '[A, B]', '[k.x[0], k.x[1]]', 2),
        ('set', "Set('d', In)", '[A]', 'list(k.x)', 1),
        ('dict', "Dictionary('d', value_prop=In)", "{'p': A, 'q': B}", "[k.x['p'], k.x['q']]", 2),
        ('dict-list', "Dictionary('d', value_prop=List('d', In))", "{'p': [A], 'q': [B]}",
         "[k.x['p'][0], k.x['q'][0]]", 2),
        ('instance', "Instance('d', In)", 'A', '[k.x]', 1),
        ('pointer', "properties.extras.Pointer('d', In)", 'A', '[k.x]', 1),
        ('deep', "Instance('d', Mid)", "{'m': {'l': [A, B]}}", '[k.x.m.l[0], k.x.m.l[1]]', 2),
        ('renamed', None, 'A', '[k.x]', 1),
    ]
    for name, prop, value, items, n in NEST:
        body = '''
class K(HasProperties):
    x = Instance('d', In)
    y = Renamed('x', warn=False)
KEY = 'y'
''' if prop is None else '''
class K(HasProperties):
    x = %s
KEY = 'x'
''' % prop
        add('nested-' + name, LEAF + '''
class In(HasProperties):
    v = Leaf('d', required=False)
    w = Property('d', deserializer=de, required=False)
class SubIn(In):
    s = Property('d', required=False)
class Mid(HasProperties):
    m = Property('d', required=False)
    l = List('d', In, required=False, default=undefined)
Mid._props['m'] = Instance('d', Mid, required=False)
Mid._props['m'].name = 'm'
Mid.m = Mid._props['m'].get_property()
%s
X, Y = sym('x'), sym('y')
assume(X is not None and X is not undefined and Y is not None and Y is not undefined)
what = pick('plain', 'unknown', 'own', 'sub', 'foreign', 'nowhere')
A, B = {'v': X, 'w': Y}, {'w': X, 'v': Y}
last = B if %d == 2 else A
if what == 'unknown':
    last['zzz'] = 1
elif what != 'plain':
    last['__class__'] = {'own': 'In', 'sub': 'SubIn', 'foreign': 'K', 'nowhere': 'Nowhere'}[what]
opts = options()
r = outcome(K.deserialize({KEY: %s}, **opts))
trusted, strict = opts.get('trusted', False), opts.get('strict', False)
if what == 'unknown' and strict:
    must(not r.ok and isinstance(r.error, ValueError), 'in strict mode an unknown key raises at every level')
elif what == 'nowhere' and strict or what in ('sub', 'foreign') and strict and not trusted:
    must(not r.ok and isinstance(r.error, ValueError), 'in strict mode a differing class name raises at every level')
elif what == 'foreign' and trusted:
    must(not r.ok, 'an instance of another class is rejected')
else:
    must(r.ok, 'the data is accepted')
    k = r.value
    items = %s
    must(len(items) == %d, 'every nested instance is loaded')
    for i in items[:-1]:
        must(type(i) is In, 'the declared class is constructed')
    if what == 'sub' and trusted:
        must(type(items[-1]) is SubIn, 'trusted data selects a class of the registry at every level')
    else:
        must(type(items[-1]) is In, 'untrusted data never changes which class is constructed at any level')
    must(len(js) == %d and len(ss) == %d, 'every nested value is loaded once')
    for c in js + ss:
        must(reached(c, opts), 'the options reach every nested value')
    must(items[-1].v == ('loaded', last['v']) and items[-1].w == ('deserialized', last['w']), 'the entries are loaded')
''' % (body, n, value, items, n, n, n), paths=300)

    add('elements', LEAF + '''
X, Y = sym('x'), sym('y')
assume(X is not Y and X is not None and Y is not None)
opts = options()
what = pick('tuple', 'list', 'dict-value', 'dict-key', 'inner')
leaf = Leaf('d') if pick('leaf', 'deserializer') == 'leaf' else Property('d', deserializer=de)
if what == 'tuple':
    r = Tuple('d', leaf).deserialize([X, Y], **opts)
    must(isinstance(r, tuple), 'the container is of its type')
elif what == 'list':
    r = List('d', leaf).deserialize([X, Y], **opts)
    must(isinstance(r, list), 'the container is of its type')
elif what == 'inner':
    r = [e[0] for e in List('d', List('d', leaf)).deserialize([[X], [Y]], **opts)]
elif what == 'dict-value':
    d = Dictionary('d', value_prop=leaf).deserialize({'p': X, 'q': Y}, **opts)
    must(set(d) == {'p', 'q'}, 'every key is kept')
    r = [d['p'], d['q']]
else:
    d = Dictionary('d', key_prop=leaf).deserialize({'p': X}, **opts)
    must(len(d) == 1 and list(d.values())[0] is X, 'every value is kept')
    r = list(d)
calls = ss + js
if what == 'dict-key':
    must(len(r) == 1 and r[0][1] == 'p' and len(calls) == 1, 'every key is converted once')
else:
    must(len(r) == 2 and r[0][1] is X and r[1][1] is Y, 'every element is converted, in order')
    must(len(calls) == 2, 'every element is converted once')
for c in calls:
    must(reached(c, opts), 'the options reach every element')
''', paths=400)
    add('union-options', LEAF + '''
X = sym('x')
assume(X is not None)
opts = options()
leaf = Leaf('d') if pick('leaf', 'deserializer') == 'leaf' else Property('d', deserializer=de)
si = pick(None, True, False)
u = Union('d', [leaf]) if si is None else Union('d', [leaf], strict_instances=si)
r = u.deserialize(X, **opts)
must(r[1] is X, 'the member loads the value')
calls = ss + js
must(len(calls) == 1, 'the value is converted once')
args, kwargs = calls[0]
must(kwargs['mult'] is opts['mult'] and bool(kwargs['trusted']) == opts.get('trusted', False), 'the options reach the members')
must(bool(kwargs['strict']) == (opts.get('strict', False) or bool(u.strict_instances)), 'strictness reaches the members')
''', paths=100)
    add('union-nested', '''
class In(HasProperties):
    v = Property('d', required=False)
class SubIn(In):
    s = Property('d', required=False)
class K(HasProperties):
    x = Union('d', [Integer('d'), Instance('d', In)])
what = pick('plain', 'unknown', 'own', 'sub', 'nowhere')
A = {'v': 'text'}
if what == 'unknown':
    A['zzz'] = 1
elif what != 'plain':
    A['__class__'] = {'own': 'In', 'sub': 'SubIn', 'nowhere': 'Nowhere'}[what]
opts = options()
r = outcome(K.deserialize({'x': A}, **opts))
trusted, strict = opts.get('trusted', False), opts.get('strict', False)
if what == 'unknown' and strict:
    must(not r.ok and isinstance(r.error, ValueError), 'in strict mode an unknown key raises at every level')
elif what == 'nowhere' and strict or what == 'sub' and strict and not trusted:
    must(not r.ok and isinstance(r.error, ValueError), 'in strict mode a differing class name raises at every level')
else:
    must(r.ok and r.value.x.v == 'text', 'the data is accepted')
    if what == 'sub' and trusted:
        must(type(r.value.x) is SubIn, 'trusted data selects a class of the registry at every level')
    else:
        must(type(r.value.x) is In, 'untrusted data never changes which class is constructed at any level')
''', paths=200)
    add('options-kept', LEAF + '''
class In(HasProperties):
    v = Leaf('d')
class K(HasProperties):
    x = pick(List('d', In), Union('d', [Integer('d'), List('d', In)]))
    y = Dictionary('d')
opts = options()
before = dict(opts)
data = {'x': [{'v': 1}], 'y': {'a': 1}, '__class__': 'K'}
r = outcome(K.deserialize(data, **opts))
must(r.ok, 'the data is accepted')
must(opts == before, "the caller's options are not altered")
must(data == {'x': [{'v': 1}], 'y': {'a': 1}, '__class__': 'K'}, 'the data is not altered')
''')
    add('default-options', '''
# without options data is untrusted, not strict and not checked
class H(HasProperties):
    name = String('n', required=False)
    r = Integer('r')
class HS(H):
    pass
class U(properties.extras.HasUID):
    _INSTANCES = {}
    name = String('n', required=False)
    r = Integer('r')
class US(U):
    pass
class S(properties.extras.Singleton):
    name = String('n')
    r = Integer('r')
class SS(S):
    pass
kind = pick('H', 'U', 'S')
K = {'H': H, 'U': U, 'S': S}[kind]
data = {}
if pick(True, False):
    data['__class__'] = kind + 'S'
if pick(True, False):
    data['unknown'] = 1
if kind == 'S':
    data['_singleton_id'] = 'one'
    if pick(True, False):
        data['name'] = 'one'
if kind == 'U':
    data['uid'] = 'u'
    data = {'__root__': 'u', 'u': data}
opts = pick({}, {'mult': 1})
r = outcome(K.deserialize(data, **opts))
must(r.ok, 'nothing is checked unless asked')
must(type(r.value) is K, 'data is not trusted unless asked')
''')
    add('default-deserializer', '''
# a registered deserializer learns that data is not trusted unless the caller said so
heard = []
def de(value, **kwargs):
    heard.append(kwargs)
    return value
x = pick(None, [1])
for p in [Property('d', deserializer=de), List('d', deserializer=de), Dictionary('d', deserializer=de),
          Union('d', [Integer('d')], deserializer=de), Array('d', deserializer=de), Instance('d', In, deserializer=de),
          Tuple('d', deserializer=de), Set('d', deserializer=de), Vector3('d', deserializer=de)]:
    for opts in ({}, {'trusted': False}, {'trusted': True}):
        del heard[:]
        p.deserialize(x, **opts)
        must(len(heard) == 1, 'the deserializer runs once')
        must(bool(heard[0].get('trusted', False)) == opts.get('trusted', False), 'the deserializer learns whether data is trusted')
def need(value, trusted, **kwargs):
    return ('got', value)
p = pick(Property('d', deserializer=need), List('d', deserializer=need), Dictionary('d', deserializer=need),
         Union('d', [Integer('d')], deserializer=need), Array('d', deserializer=need))
r = outcome(p.deserialize([1]))
must(r.ok and r.value == ('got', [1]), 'the deserializer is told whether data is trusted')
''', paths=600)
    return S
