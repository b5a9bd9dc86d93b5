"""The library never modifies the caller's data."""
from engine.explore import Scenario

TECHNIQUE = ('ownership analysis inside a path-partitioned abstract interpretation: every in-place '
             'change is attributed to the object it changes and to its owner (caller, import time, library)')

REGS = '''
REGS = [HasProperties._REGISTRY, properties.extras.HasUID._REGISTRY, properties.extras.HasUID._INSTANCES,
        properties.extras.Singleton._SINGLETONS, properties.base.containers.OBSERVABLE_REGISTRY]
'''

# property expression, caller's value (containers are marked), serialized form
VALUES = [
    ('list', "List('d', Integer('d'))", '[1, 2.0, 3]', '[1, 2]'),
    ('list-of-lists', "List('d', List('d', Integer('d')))", '[[1], [2, 3]]', '[[1], [2]]'),
    ('list-coerced', "List('d', Integer('d'), coerce=True)", '(1, 2.0)', '[1, 2]'),
    ('list-coerced-set', "List('d', Integer('d'), coerce=True)", '{1, 2}', '[1, 2]'),
    ('list-observed', "List('d', Integer('d'), observe_mutations=True)", '[1, 2.0]', '[1, 2]'),
    ('tuple', "Tuple('d', List('d'))", '([1], [2])', '[[1], [2]]'),
    ('tuple-coerced', "Tuple('d', coerce=True)", '[1, 2]', '[1, 2]'),
    ('set', "Set('d', Integer('d'))", '{1, 2}', '[1, 2]'),
    ('set-coerced', "Set('d', Integer('d'), coerce=True)", '[1, 2]', '[1, 2]'),
    ('set-observed', "Set('d', observe_mutations=True)", '{1, 2}', '[1, 2]'),
    ('dict', "Dictionary('d', key_prop=String('d'), value_prop=List('d'))", "{'a': [1], 'b': [2]}", "{'a': [1]}"),
    ('dict-observed', "Dictionary('d', observe_mutations=True)", "{'a': 1}", "{'a': 1}"),
    ('dict-coerced', "Dictionary('d', coerce=True)", "{'a': [1]}", "{'a': [1]}"),
    ('plain', "Property('d')", "{'a': [1]}", "{'a': [1]}"),
    ('color', "Color('d')", '[1, 2, 3]', '[1, 2, 3]'),
    ('union', "Union('d', (List('d', Integer('d')), Dictionary('d'), Array('d')))", "[1, 2.0]", '[1, 2]'),
    ('union-dict', "Union('d', (List('d', Integer('d')), Dictionary('d')))", "{'a': [1]}", "{'a': [1]}"),
    ('instance-tagged', "Instance('d', E)", "{'v': [1], '__class__': 'E'}", "{'__class__': 'E', 'v': [1]}"),
    ('instance', "Instance('d', E)", "{'v': [1], 'n': 2.0}", "{'__class__': 'E', 'v': [1], 'n': 2}"),
    ('instance-list', "List('d', E)", "[{'v': [1], 'n': 2.0}, {}]", "[{'__class__': 'E', 'v': [1]}, {'v': []}]"),
    ('instance-union', "Union('d', (E, F))", "{'w': [1]}", "{'__class__': 'F', 'w': [1]}"),
    ('foreign', "Instance('d', dict)", "{'a': [1]}", "{'a': [1]}"),
    ('array', "Array('d', dtype=(int, float), shape=('*',))", '[1, 2]', '[1, 2]'),
    ('array-nested', "Array('d', shape=('*', 3))", '[[1, 2, 3], [4, 5, 6]]', "[['nan', 1.0, 2.0]]"),
    ('vector', "Vector3('d', length=2.0)", '[1, 2, 3]', '[1, 2, 3]'),
    ('vector2', "Vector2('d', length=2.0)", '[1, 2]', '[1, 2]'),
    ('vectors', "Vector3Array('d', length=2.0)", "['x', [1, 2, 3]]", '[[1, 2, 3]]'),
    ('vectors2', "Vector2Array('d')", "['x', [1, 2]]", '[[1, 2]]'),
    ('pointer', "properties.extras.Pointer('d', U)", "{'uid': 'one', 'v': [1]}",
     "{'__root__': 'a', 'a': {'__class__': 'U', 'uid': 'a', 'v': [1], 'next': 'b'}, 'b': {'uid': 'b', 'v': []}}"),
]

DEFS = '''
class E(HasProperties):
    v = List('d', required=False)
    n = Integer('d', required=False)
class F(E):
    w = List('d', Integer('d'))
class U(properties.extras.HasUID):
    v = List('d', required=False)
    next = properties.extras.Pointer('d', properties.extras.HasUID, required=False)
'''


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 150)
        S.append(Scenario(name, REGS + src, **k))

    for name, prop, value, serial in VALUES:
        need = DEFS if name.startswith(('instance', 'pointer')) else '''
class E(HasProperties):
    v = List('d', required=False)
'''
        for i, what in enumerate(["'validate', 'set', 'construct', 'equal', 'assert_valid'",
                                  "'invalid', 'default', 'class default', 'union', 'validator'"]):
            add('use-%s-%d' % (name, i), (need + '''
p = %(prop)s
class K(HasProperties):
    x = p
value = caller(%(value)s)
before = %(value)s
what = pick(%(what)s)
k = K()
if what == 'validate':
    r = outcome(p.validate(pick(None, k), value))
elif what == 'set':
    r = outcome(setattr(k, 'x', value))
elif what == 'construct':
    r = outcome(K(x=value))
    if r.ok:
        r = outcome(r.value.validate())
elif what == 'invalid':
    q = List('d', p, coerce=True)
    outcome(q.validate(None, caller([value, object()])))
    outcome(Dictionary('d', value_prop=p).validate(None, caller({'a': value, 'b': object()})))
elif what == 'equal':
    r = outcome(setattr(k, 'x', value))
    r = outcome(p.equal(k.x, value))
    r = outcome(p.equal(value, k.x))
    r = outcome(p.equal(value, before))
elif what == 'assert_valid':
    r = outcome(p.assert_valid(k, value))
elif what == 'default':
    class D(HasProperties):
        x = p
    r = outcome(setattr(p, 'default', value))
    assume(r.ok)
    r = outcome(D())
    assume(r.ok)
    del r.value.x
    r = outcome(r.value._reset())
elif what == 'class default':
    def declare():
        class D(HasProperties):
            x = p
            _defaults = caller({'x': value})
        return D
    r = outcome(declare())
    assume(r.ok)
    r = outcome(r.value())
    assume(r.ok)
    r = outcome(r.value._reset())
elif what == 'validator':
    class V(HasProperties):
        x = p
        @validator('x')
        def _check(self, change):
            return True
    r = outcome(V(x=value))
    if r.ok:
        r = outcome(r.value.validate())
else:
    class V(HasProperties):
        x = Union('d', (Instance('d', E), String('d'), p))
    r = outcome(V(x=value))
must(untouched(), 'the values of the caller are left alone')
must(len(globals_touched(*REGS)) == 0, 'nothing shared is changed')
''') % dict(prop=prop, value=value, what=what))
        for i, what in enumerate(["'serialize', 'to_json', 'equal'", "'copy'", "'deserialize'",
                                  "'prop deserialize', 'from_json', 'filter'"]):
            add('json-%s-%d' % (name, i), (need + '''
p = %(prop)s
class K(HasProperties):
    x = p
what = pick(%(what)s)
if what in ('serialize', 'copy', 'to_json', 'equal'):
    k = K()
    assume(outcome(setattr(k, 'x', %(value)s)).ok)
    value = caller(k.x)
    if what == 'serialize':
        opts = caller({'include_class': pick(True, False), 'extra': 1})
        k.serialize(**opts)
        p.serialize(value, **opts)
    elif what == 'copy':
        c = outcome(properties.copy(k))
        must(k.x is value, 'copying leaves the original alone')
    elif what == 'equal':
        j = K()
        r = outcome(properties.equal(j, k))
        r = outcome(setattr(j, 'x', %(value)s))
        caller(j.x)
        r = outcome(properties.equal(j, k))
    else:
        p.to_json(value)
else:
    data = caller(%(serial)s)
    opts = caller({'trusted': pick(True, False), 'strict': pick(True, False), 'assert_valid': pick(True, False)})
    if what == 'deserialize':
        whole = caller({'x': data, '__class__': 'K', 'unknown': [1]})
        r = outcome(K.deserialize(whole, **opts))
        must(len(whole) == 3 and whole['x'] is data, 'the input of deserialize is left alone')
    elif what == 'prop deserialize':
        r = outcome(p.deserialize(data, **opts))
    elif what == 'filter':
        whole = caller({'x': data, 'unknown': [1]})
        a, b = properties.filter_props(K, whole, pick(True, False))
        a['y'] = 1
        b['z'] = 1
        must(len(whole) == 2, 'filtering answers new dictionaries')
    else:
        r = outcome(p.from_json(data))
must(untouched(), 'the values of the caller are left alone')
''') % dict(prop=prop, value=value, serial=serial, what=what), paths=80)
        # what is handed out belongs to whom it is handed out to
        if name.split('-')[0] in ('list', 'tuple', 'set', 'dict', 'instance') and \
                not name.startswith('tuple') and name != 'instance-tagged':
            add('default-' + name, (need + '''
p = %(prop)s
which = pick('property', 'class')
value = caller(%(value)s)
if which == 'property':
    p.default = value
    class K(HasProperties):
        x = p
else:
    class K(HasProperties):
        x = p
        _defaults = {'x': value}
k = K()
j = K()
must(k.x is not value and k.x is not j.x, 'a default is handed out as a copy')
if isinstance(k.x, list):
    k.x.append(7)
elif isinstance(k.x, set):
    k.x.add(7)
elif isinstance(k.x, dict):
    k.x['q'] = []
elif isinstance(k.x, E):
    k.x.v = [5]
if isinstance(value, (list, set, dict)):
    must(len(value) == len(%(value)s), 'the default is not changed through a value handed out')
must(untouched(), 'the default is not changed through a value handed out')
''') % dict(prop=prop, value=value))

    # arrays of the caller
    for name, prop in [('array', "Array('d', coerce=%s, dtype=(int, float))"), ('vector', "Vector3('d', coerce=%s)"),
                       ('vector-length', "Vector3('d', coerce=%s, length=2.0)"),
                       ('vectors-length', "Vector3Array('d', coerce=%s, length=2.0)"),
                       ('vectors2-length', "Vector2Array('d', coerce=%s, length=2.0)"),
                       ('vector2-length', "Vector2('d', coerce=%s, length=2.0)")]:
        own = {'array': 'numpy.ndarray', 'vector': 'vectormath.Vector3', 'vectors': 'vectormath.Vector3Array',
               'vectors2': 'vectormath.Vector2Array', 'vector2': 'vectormath.Vector2'}[name.split('-')[0]]
        for co, what, typ in [(c, w, t) for c in ('True', 'False') for w in (
                "'validate', 'set'", "'equal', 'to_json', 'serialize', 'assert_valid'")
                              for t in {'numpy.ndarray', own}]:
            add('ndarray-%s-%s-%s-%s' % (name, co, what[1:4], typ), '''
p = %s
class K(HasProperties):
    x = p
a = sym('a', ext_name('%s'))
b = sym('b', exc_of(a))
what = pick(%s)
if what == 'validate':
    r = outcome(p.validate(None, a))
elif what == 'set':
    k = K()
    r = outcome(setattr(k, 'x', a))
    r = outcome(k.validate())
elif what == 'equal':
    r = outcome(p.equal(a, b))
elif what == 'to_json':
    r = outcome(p.to_json(a))
elif what == 'serialize':
    r = outcome(p.serialize(a))
else:
    r = outcome(p.assert_valid(K(), a))
must(untouched(a) and untouched(b), 'the array of the caller is left alone')
''' % (prop % co, typ, what), paths=100, rec=3)

    # the tables are not handed out
    # comparing leaves both sides alone, whatever their sizes
    for name, prop, vals in (
            ('set', "Set('d')", ('set()', '{1}', '{2}', '{1, 2}', '{2, 1}', '{1, 3}', '{1, 2, 3}')),
            ('set-of-instances', "Set('d', prop=E)", ('{E(i=1)}', '{E(i=2)}', '{E(i=1), E(i=2)}')),
            ('list', "List('d')", ('[]', '[1]', '[2]', '[1, 2]', '[2, 1]', '[[1]]')),
            ('tuple', "Tuple('d', prop=List('d'))", ('()', '([],)', '([1],)', '([1], [2])')),
            ('dict', "Dictionary('d')", ('{}', '{0: 1}', '{0: 2}', '{1: 1}', '{0: 1, 1: 2}', '{0: [1], 1: {}}')),
            ('dict-of-sets', "Dictionary('d', value_prop=Set('d'))", ('{0: {1}}', '{0: {1}, 1: {2}}', '{0: set()}')),
            ('list-of-dicts', "List('d', prop=Dictionary('d'))", ('[{}]', '[{0: 1}]', '[{0: 1}, {1: 2}]')),
            ('union', "Union('d', (Set('d'), Dictionary('d'), List('d')))", ('{1}', '{0: 1}', '[1]', '[1, 2]')),
            ('property', "Property('d')", ('{1}', '{0: 1}', '[1]', '[[1], 2]')),
    ):
        add('compare-' + name, '''
class E(HasProperties):
    i = Integer('d')
p = %s
class K(HasProperties):
    x = p
mk = [%s]
j, k = K(), K()
j.x = pick(*mk)()
k.x = pick(*mk)()
va, vb = j.x, k.x
caller(va)
caller(vb)
how = pick('prop', 'instances', 'assign', 'validate')
if how == 'prop':
    outcome(p.equal(va, vb))
elif how == 'instances':
    outcome(properties.equal(j, k))
elif how == 'assign':
    outcome(setattr(k, 'x', va))
else:
    outcome(j.validate())
    outcome(p.assert_valid(k))
must(untouched(), 'comparing leaves both values alone')
must(j.x is va, 'comparing leaves both values alone')
must(k.x is vb or how == 'assign', 'comparing leaves both values alone')
''' % (prop, ', '.join('lambda: ' + v for v in vals)), paths=100)
    add('deserialized-data', '''
class E(HasProperties):
    v = List('d', required=False)
    w = Integer('d', required=False)
    o = Renamed('w')
inner = pick({}, {'__class__': 'E'}, {'v': [1]}, {'o': 1, 'q': []})
data = dict(inner)
if pick(True, False):
    data['__class__'] = pick('E', 'K', 'Nothing', '')
if pick(True, False):
    data['unknown'] = []
size = len(data)
caller(data)
class K(HasProperties):
    e = Instance('d', E, required=False)
    l = List('d', prop=E, required=False)
    u = Union('d', (E, Integer('d')), required=False)
opts = {'trusted': pick(True, False), 'strict': pick(True, False)}
how = pick('direct', 'instance', 'list', 'union')
if how == 'direct':
    outcome(E.deserialize(data, **opts))
else:
    key = {'instance': 'e', 'list': 'l', 'union': 'u'}[how]
    outcome(K.deserialize(caller({key: [data] if how == 'list' else data}), **opts))
must(untouched(), 'the input of deserialize is left alone')
must(len(data) == size, 'the input of deserialize is left alone')
''', paths=200)
    add('directions', '''
p = pick(Vector3('d'), Vector2('d'), Vector3('d', length=5.0), Vector2('d', length=5.0))
r = outcome(p.validate(None, pick('x', 'X', '-y', 'zero', 'up', 'West')))
assume(r.ok)
v = r.value
must(len(globals_touched(*REGS)) == 0, 'the direction table is not changed')
must(not any([v is d for d in properties.math.VECTOR_DIRECTIONS.values()]), 'the direction table is not handed out')
w = outcome(p.validate(None, v))
must(len(globals_touched(*REGS)) == 0, 'the direction table is not changed')
''', paths=100)
    add('direction-arrays', '''
p = pick(Vector3Array('d'), Vector2Array('d'), Vector3Array('d', length=5.0))
names = caller(pick(['x', 'y'], ['West', '-y'], ('x', 'south'), ['x', [1, 2, 3]], ['bogus', 'x'], ['x', 5]))
r = outcome(p.validate(None, names))
must(untouched(), 'the sequence of the caller is left alone')
must(len(globals_touched(*REGS)) == 0, 'the direction table is not changed')
''', paths=100)
    add('colours', '''
p = Color('d')
v = outcome(p.validate(None, pick('red', 'RANDOM', 'random', '#fff', 'bogus', sym('s', str))))
must(len(globals_touched(*REGS)) == 0, 'the colour tables are not changed')
if v.ok:
    out = p.serialize(v.value)
    out.append(1)
    must(len(p.serialize(v.value)) == 3, 'the serialized form is a list of its own')
''', paths=100)

    # configuration
    add('choices', '''
choices = caller(pick({'a': ['b', 'c'], 'd': ('e',)}, {'a': 'b', 'd': {'e'}}, ['a', 'd'], ('a', 'd'), {'a', 'd'}))
descr = caller({'a': 'first', 'd': 'second'})
p = StringChoice('d', choices=choices, descriptions=descr, case_sensitive=pick(True, False))
for v in ('a', 'D', 'B', 'nope'):
    r = outcome(p.validate(None, v))
p.info
p.sphinx()
p.choices = choices
must(untouched(), 'the configuration of the caller is left alone')
if isinstance(choices, dict):
    must(not isinstance(choices['d'], list) or True, 'unused')
    choices['z'] = 'y'
    must(not outcome(p.validate(None, 'z')).ok, 'later changes of the caller do not reach the property')
''', paths=150)
    add('configuration', '''
shapes = caller({('*', 3), (2,)})
dtypes = caller([int, float])
modes = caller(['r', 'rb'])
props = caller([String('d'), Integer('d')])
meta = caller({'a': [1]})
p = Array('d', shape=shapes, dtype=dtypes).tag(meta, b=2)
p.info
p.sphinx()
f = File('d', mode='r', valid_modes=modes)
f.info
u = Union('d', props)
u.name = 'u'
u.info
u.validate(None, 'a')
must(untouched(), 'the configuration of the caller is left alone')
p.meta['c'] = 3
must(len(meta) == 1, 'tags are kept on their own')
props.append(7)
must(len(u.props) == 2, 'members are kept on their own')
modes.append(9)
must(f.valid_modes == ('r', 'rb'), 'modes are kept on their own')
must(p.meta == {'a': [1], 'b': 2, 'c': 3}, 'what was tagged is read back')
''', paths=60)
    add('arguments', '''
kw = caller({'default': 'a', 'required': False, 'strip': ' '})
s = String('d', **kw)
s.terms
t = s.terms
rename = caller({'doc': 'd', 'warn': False})
r = properties.Renamed('x', **rename)
img = caller({'valid_modes': ['rb'], 'filename': 'f'})
i = ImagePNG('d', **img)
must(untouched(), 'the keyword arguments of the caller are left alone')
''', paths=40)
    add('class-bodies', '''
order = caller(['y', 'x', 'z'])
defaults = caller({'x': [1], 'y': 2})
names = caller(['x', 'y'])
class K(HasProperties):
    x = List('d')
    y = Integer('d')
    z = Renamed('y')
    _doc_order = order
    _defaults = defaults
    @observer(names)
    def _see(self, change):
        pass
class L(K):
    w = Integer('d')
    _defaults = caller({'w': 5})
    x = List('d', Integer('d'))
ks = K._props
L(x=[4]).x.append(3)
L().y = 7
must(untouched(), 'what a class body is given is left alone')
must(len(K._props) == 3 and len(K._defaults) == 2, 'a subclass leaves its base alone')
must(K._defaults['x'] == [1], 'the defaults are left alone')
must('w' not in defaults, 'a subclass leaves the defaults of its base alone')
''', paths=60)
    add('subclassing', '''
class A(HasProperties):
    x = Integer('d')
    _defaults = {'x': 1}
    @observer('x')
    def _o(self, change):
        pass
    @validator('x')
    def _v(self, change):
        pass
    @validator
    def _c(self):
        pass
class Side(HasProperties):
    s = Integer('d')
    _defaults = {'s': 2}
before = (len(A._props), len(A._prop_observers), len(A._class_validators), len(A._defaults))
reg = dict(A._REGISTRY)
class B(A, Side):
    x = Float('d')
    y = Integer('d')
    _o = None
    _defaults = {'x': 2.0, 'y': 7}
    @observer('y')
    def _o2(self, change):
        pass
    @validator
    def _c2(self):
        pass
b = B(x=1)
b.y = 4
b._o2 = 3
observer(b, 'x', fn('F'))
validator(b, 'y', fn('G'))
b.validate()
must((len(A._props), len(A._prop_observers), len(A._class_validators), len(A._defaults)) == before,
     'a subclass and its instances leave the base class alone')
must(type(A._props['x']) is Integer and A._defaults['x'] == 1, 'a subclass leaves the base class alone')
must(A._props['x'].name == 'x', 'a subclass leaves the properties of its base alone')
must(len(Side._props) == 1 and len(Side._defaults) == 1, 'a subclass leaves the base class alone')
a = A()
must(len(a._listeners) == 1, 'callbacks registered on an instance stay on it')
must(a.x == 1, 'the defaults of the base stay')
must(len(HasProperties._defaults) == 0 and len(HasProperties._props) == 0, 'the root class is left alone')
''', paths=60)
    add('instances', '''
class A(HasProperties):
    x = List('d')
    y = Integer('d', default=3)
a, b = A(), A()
a.x = [1]
a.y = 5
observer(a, 'x', fn('F'))
must(b.x is None and b.y == 3 and len(b._listeners) == 0, 'instances share no state')
must(A().y == 3, 'instances share no state')
must(len(A._defaults) == 0 and A._props['y'].default == 3, 'instances leave their class alone')
del a.y
must(b.y == 3, 'instances share no state')
''', paths=30)
    add('contexts', '''
a, b = sym('a', str), 'x'
names = caller(['x'])
class A(HasProperties):
    x = Integer('d')
k = A()
h = observer(k, names, fn('F'))
must(untouched(), 'the names given are left alone')
names.append('y')
must(h.names == ('x',), 'the names are kept on their own')
with listeners_disabled():
    k.x = 3
with properties.handlers.listeners_disabled():
    pass
must(untouched(names) or True, 'unused')
''', paths=30)
    # unique ids
    add('uid', DEFS + '''
a = U(uid='a1', v=[1])
b = U(uid='b1', next=a)
a.next = b
data = b.serialize(include_class=pick(True, False))
must(len(data) == 3, 'a flat dictionary')
must(a.next is b and b.next is a and a.v == [1], 'serializing leaves the objects alone')
for key in ('a1', 'b1'):
    del U._INSTANCES[key]
caller(data)
opts = caller({'trusted': pick(True, False), 'root': pick('a1', 'b1')})
r = outcome(U.deserialize(data, **opts))
must(untouched(), 'the dictionary of the caller is left alone')
must(len(data) == 3 and isinstance(data['a1'], dict), 'the dictionary of the caller is left alone')
if r.ok:
    r.value.v = [9]
    must(untouched(), 'a deserialized object does not share state with its input')
''', paths=60)
    add('singleton', '''
class S(properties.extras.Singleton):
    name = String('d')
    v = List('d', required=False)
s = S('one', v=[1])
data = caller(s.serialize())
copy = caller({'_singleton_id': 'two', 'name': 'three', 'v': [4], '__class__': 'S'})
r = S.deserialize(pick(data, copy), trusted=pick(True, False))
must(untouched(), 'the dictionary of the caller is left alone')
must(len(data) == 4 and len(copy) == 4, 'the dictionary of the caller is left alone')
''', paths=60)
    add('task', '''
class T(properties.extras.BaseTask):
    class Input(properties.extras.BaseInput):
        v = List('d')
    def run(self, input_obj):
        input_obj.v.append(5)
        return self.Output()
v = caller([1])
kw = caller({'v': v})
out = T()(**kw)
must(untouched(), 'the arguments of the caller are left alone')
must(v == [1], 'the computation works on values of its own')
out['more'] = 1
must(len(T()(**kw)) == 2, 'every call has a result of its own')
T().report_status(caller({'progress': 0.5, 'message': 'm'}))
must(untouched(), 'a status is left alone')
''', paths=60)
    add('errors', '''
t = caller([properties.utils.ErrorTuple('m', 'r', 'p', None)])
class K(HasProperties):
    x = Integer('d', required=False)
    y = Integer('d', required=False)
    seen = []
    def _error_hook(self, error_tuples):
        K.seen.append(list(error_tuples))
    @validator
    def _one(self):
        raise properties.ValidationError('one', _error_tuples=t)
    @validator
    def _two(self):
        raise properties.ValidationError('two', 'r', 'y', self)
k = K()
r = outcome(k.validate())
must(not r.ok, 'invalid')
must(untouched() and len(t) == 1, 'the error tuples of the caller are left alone')
must(len(r.error.error_tuples) == 2, 'all errors are listed')
r2 = outcome(k.validate())
must(len(r.error.error_tuples) == 2 and len(r2.error.error_tuples) == 2, 'errors of separate validations stay apart')
''', paths=60)
    add('links', '''
class K(HasProperties):
    x = List('d')
    y = List('d')
k, j = K(), K()
items = ((k, 'x'), (j, 'y'))
opts = caller({'update_now': False, 'change_only': pick(True, False)})
l = properties.link(*items, **opts)
value = caller([1])
k.x = value
must(untouched(), 'the value of the caller is left alone')
must(j.y == [1] and j.y is not k.x, 'linked containers are kept apart')
''', paths=60)
    return S
