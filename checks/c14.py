"""Serialization covers exactly the stored state and honours options."""
from engine.explore import Scenario

TYPES = [
    ('Property', "Property('d'%s)"), ('GettableProperty', "GettableProperty('d'%s)"), ('Boolean', "Boolean('d'%s)"),
    ('Integer', "Integer('d'%s)"), ('Float', "Float('d'%s)"), ('Complex', "Complex('d'%s)"),
    ('String', "String('d'%s)"), ('StringChoice', "StringChoice('d', choices=['a', 'b']%s)"), ('Color', "Color('d'%s)"),
    ('DateTime', "DateTime('d'%s)"), ('Uuid', "Uuid('d'%s)"), ('File', "File('d'%s)"), ('ImagePNG', "ImagePNG('d'%s)"),
    ('Instance', "Instance('d', In%s)"), ('Instance-foreign', "Instance('d', Foreign%s)"),
    ('Pointer', "properties.extras.Pointer('d', properties.extras.HasUID%s)"), ('URL', "properties.extras.URL('d'%s)"),
    ('Tuple', "Tuple('d'%s)"), ('List', "List('d', Integer('d')%s)"), ('Set', "Set('d'%s)"),
    ('Dictionary', "Dictionary('d'%s)"), ('Union', "Union('d', [Integer('d'), String('d')]%s)"),
    ('Array', "Array('d'%s)"), ('Vector3', "Vector3('d'%s)"), ('Vector2', "Vector2('d'%s)"),
    ('Vector3Array', "Vector3Array('d'%s)"), ('Vector2Array', "Vector2Array('d'%s)"),
    ('List-observed', "List('d', observe_mutations=True%s)"),
    ('Renamed', "Renamed('new'%s)"),
    ('Dynamic', "properties.basic.DynamicProperty('d', get, Integer('d'%s))"),
    ('Dynamic-list', "properties.basic.DynamicProperty('d', get, List('d', In%s))"),
]

HEAD = '''
class In(HasProperties):
    v = Property('d', required=False)
class Foreign(object):
    pass
def get(self):
    return None
def options():
    opts = pick({}, {'include_class': True, 'save_dynamic': False}, {'include_class': False},
                {'save_dynamic': True}, {'include_class': False, 'save_dynamic': True})
    opts['mult'] = sym('mult')
    return opts
def reached(call, opts, defaults=('include_class', 'save_dynamic')):
    """the options of the outermost call are those of this call"""
    args, kwargs = call
    for name in opts:
        if not (name in kwargs and kwargs[name] is opts[name]):
            return False
    for name in kwargs:
        if name in opts:
            continue
        if name == 'include_class' and kwargs[name] is True:
            continue
        if name == 'save_dynamic' and kwargs[name] is False:
            continue
        return False
    return True
'''

# a leaf property whose conversion is recorded
LEAF = '''
js, ss = [], []
class Leaf(Property):
    @staticmethod
    def to_json(value, **kwargs):
        js.append(((value,), dict(kwargs)))
        return ('json', value)
def ser(value, **kwargs):
    ss.append(((value,), dict(kwargs)))
    return ('serialized', value)
def ser_some(value, **kwargs):
    """serializers have to account for None"""
    return None if value is None else ser(value, **kwargs)
'''


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 300)
        S.append(Scenario(name, HEAD + src, **k))

    for name, make in TYPES:
        add('serializer-' + name, LEAF + '''
p = %s
x = pick(None, sym('x'))
opts = options()
r = p.serialize(x, **opts)
must(r[0] == 'serialized' and r[1] is x, 'a registered serializer decides')
must(len(ss) == 1, 'the serializer runs once')
args, kwargs = ss[0]
must(args[0] is x, 'the serializer gets the value')
must(reached(ss[0], opts), 'the serializer gets the options')
''' % (make % ', serializer=ser'), paths=80)
        add('plain-serializer-' + name, '''
p = %s
x = pick(None, sym('x'))
opts = options()
r = p.serialize(x, **opts)
must(r == ('plain', x) and r[1] is x, 'a serializer taking only the value decides')
''' % (make % ", serializer=lambda value: ('plain', value)"), paths=80)
        add('none-' + name, '''
p = %s
opts = options()
must(p.serialize(None, **opts) is None, 'None serializes to None')
''' % (make % ''), paths=40)
        if name in ('Renamed',) or name.startswith('Dynamic'):
            continue
        # inside an instance, and inside every container
        add('in-instance-' + name, LEAF + '''
p = %s
class K(HasProperties):
    x = p
    o = Property('d', required=False)
X, O = sym('x'), sym('o')
assume(X is not None and O is not None and X is not undefined and O is not undefined)
k = K()
k._backend.clear()
present = pick(True, False)
if present:
    k._backend['x'] = X
if pick(True, False):
    k._backend['o'] = O
opts = options()
r = k.serialize(**opts)
must(('x' in r) == present, 'an entry for every property that has a value and none for the others')
must(('o' in r) == ('o' in k._backend), 'an entry for every property that has a value and none for the others')
if present:
    must(len(ss) == 1 and reached(ss[0], opts), 'the serializer gets the options')
    must(r['x'][0] == 'serialized' and r['x'][1] is X, 'the entry is what the serializer answers')
if 'o' in r:
    must(r['o'] is O, 'the entry is the serialized value')
must(set(r) <= {'x', 'o', '__class__'}, 'nothing else is written')
''' % (make % ', serializer=ser_some'), paths=300)

    # -- the entries of an instance
    for i in range(5):
        add('entries-%d' % i, LEAF + '''
G = fn('G')
class A(HasProperties):
    a = Leaf('d', required=False)
    b = Leaf('d')
    g = GettableProperty('d')
    _p = Leaf('d')
    @Leaf('d')
    def dyn(self):
        return G()
class K(A):
    c = Leaf('d')
    old = Renamed('b')
    plain = 5
k = K()
stored = {}
for n in ('a', 'b', 'g', '_p', 'c'):
    if n in ('_p', 'c') and 'b' in stored:
        continue
    if pick(True, False):
        v = sym('v_' + n)
        assume(v is not None and v is not undefined)
        if n == 'g':
            k._backend[n] = v
        else:
            setattr(k, n, v)
        stored[n] = v
    elif n == 'a':
        setattr(k, n, sym('deleted'))
        delattr(k, n)
opts = [{}, {'include_class': True, 'save_dynamic': False}, {'include_class': False},
        {'save_dynamic': True}, {'include_class': False, 'save_dynamic': True}][%d]
opts['mult'] = sym('mult')
before = dict(k._backend)
r = k.serialize(**opts)
names = set(stored)
if opts.get('save_dynamic', False):
    if G() is not None and G() is not undefined:
        names.add('dyn')
    if 'b' in stored:
        names.add('old')
if opts.get('include_class', True):
    names.add('__class__')
    must(r.get('__class__') == 'K', 'the class name is the name of the class of the instance')
must(set(r) == names, 'entries: every property with a value, the class name and unsaved properties only on request')
for n in stored:
    if n == 'g':
        must(r[n] is stored[n], 'an entry is the converted value')
    else:
        must(r[n][0] == 'json', 'an entry is the converted value')
for n in names:
    if n in ('__class__', 'g'):
        continue
    must(len([c for c in js if c[0][0] is (k._backend['b'] if n == 'old' else G() if n == 'dyn' else stored[n])
              and reached(c, opts)]) >= 1, 'the conversion gets the value and the options')
must(k._backend == before, 'the instance is not altered')
''' % i, paths=1500, wall=80)

    # -- options reach everything nested
    NEST = [
        ('list', "List('d', Instance('d', In))", '[a, b]', 2, "r['x'][0]['v'], r['x'][1]['v']"),
        ('list-class', "List('d', In)", '[a, b]', 2, "r['x'][0]['v'], r['x'][1]['v']"),
        ('list-list', "List('d', List('d', In))", '[[a], [b]]', 2, "r['x'][0][0]['v'], r['x'][1][0]['v']"),
        ('tuple', "Tuple('d', Instance('d', In))", '(a, b)', 2, "r['x'][0]['v'], r['x'][1]['v']"),
        ('set', "Set('d', Instance('d', In))", '{a}', 1, "r['x'][0]['v'],"),
        ('dict', "Dictionary('d', value_prop=Instance('d', In))", "{'p': a, 'q': b}", 2,
         "r['x']['p']['v'], r['x']['q']['v']"),
        ('dict-list', "Dictionary('d', value_prop=List('d', In))", "{'p': [a], 'q': [b]}", 2,
         "r['x']['p'][0]['v'], r['x']['q'][0]['v']"),
        ('instance', "Instance('d', In)", 'a', 1, "r['x']['v'],"),
        ('base', "Instance('d', HasProperties)", 'a', 1, "r['x']['v'],"),
        ('union', "Union('d', [Integer('d'), Instance('d', In)])", 'a', 1, "r['x']['v'],"),
        ('union-list', "Union('d', [String('d'), List('d', In)])", '[a, b]', 2, "r['x'][0]['v'], r['x'][1]['v']"),
        ('list-union', "List('d', Union('d', [Integer('d'), In]))", '[a, 1, b]', 2, "r['x'][0]['v'], r['x'][2]['v']"),
        ('pointer', "properties.extras.Pointer('d', In)", 'a', 1, "r['x']['v'],"),
        ('deep', "Instance('d', Mid)", 'Mid(m=Mid(l=[a, b]))', 2, "r['x']['m']['l'][0]['v'], r['x']['m']['l'][1]['v']"),
        ('dynamic', None, 'a', 1, "r['x']['v'],"),
        ('dynamic-list', None, '[a, b]', 2, "r['x'][0]['v'], r['x'][1]['v']"),
    ]
    for name, prop, value, n, entries in NEST:
        if prop is None:
            body = '''
class K(HasProperties):
    @%s
    def x(self):
        return value
opts['save_dynamic'] = True
k = K()
''' % ("Instance('d', In)" if name == 'dynamic' else "List('d', In)")
        else:
            body = '''
class K(HasProperties):
    x = %s
k = K(x=value)
''' % prop
        add('nested-' + name, LEAF + '''
class In(HasProperties):
    v = Leaf('d')
    w = Property('d', serializer=ser)
    @Leaf('d')
    def dyn(self):
        return 'dynamic'
class Mid(HasProperties):
    m = Instance('d', HasProperties, required=False)
    l = List('d', In, required=False, default=undefined)
X, Y = sym('x'), sym('y')
assume(X is not None and X is not undefined and Y is not None and Y is not undefined)
a, b = In(v=X, w=Y), In(v=Y, w=X)
opts = options()
value = %s
%s
r = k.serialize(**opts)
got = (%s)
must([e[0] for e in got] == ['json'] * %d, 'nested values are converted by their property')
wanted = %d * (2 if opts.get('save_dynamic', False) else 1)
must(len(js) == wanted, 'every nested value is converted once')
must(len(ss) == %d, 'every nested serializer runs once')
for call in js:
    must(reached(call, opts), 'the options reach every nested conversion')
for call in ss:
    must(reached(call, opts), 'the options reach every nested serializer')
def tagged(e, top):
    """number of dictionaries with and without a class name"""
    yes = no = 0
    if isinstance(e, dict):
        if '__class__' in e:
            yes += 1
        elif 'v' in e or 'x' in e or 'm' in e or 'l' in e:
            no += 1
        for i in e.values():
            y, m = tagged(i, False)
            yes, no = yes + y, no + m
    elif isinstance(e, list):
        for i in e:
            y, m = tagged(i, False)
            yes, no = yes + y, no + m
    return yes, no
yes, no = tagged(r, True)
if opts.get('include_class', True):
    must(no == 0 and yes >= %d + 1, 'the class name is written at every level when requested')
else:
    must(yes == 0, 'the class name is written nowhere when not requested')
must(('dyn' in (%s)) == bool(opts.get('save_dynamic', False)), 'dynamic properties appear at every level only on request')
''' % (value, body, entries, n, n, n, n, entries.split(',')[0].replace("['v']", '')), paths=300)

    # the static conversions of untyped containers pass the options to instances
    add('static', LEAF + '''
class In(HasProperties):
    v = Leaf('d')
X = sym('x')
assume(X is not None and X is not undefined)
a = In(v=X)
opts = options()
what = pick('tuple', 'list', 'set', 'dict', 'union', 'instance')
if what == 'tuple':
    r = Tuple.to_json((a, 1), **opts)
elif what == 'list':
    r = List.to_json([a, 1], **opts)
elif what == 'set':
    r = Set.to_json({a}, **opts)
elif what == 'dict':
    r = list(Dictionary.to_json({'q': a}, **opts).values())
elif what == 'union':
    r = [Union.to_json(a, **opts)]
else:
    r = [Instance.to_json(a, **opts)]
must(r[0]['v'][0] == 'json' and len(js) == 1, 'instances are serialized')
must(reached(js[0], opts), 'the options reach them')
must(('__class__' in r[0]) == opts.get('include_class', True), 'the class name is written exactly when requested')
''')
    # a property given directly to a container
    add('elements', LEAF + '''
X, Y = sym('x'), sym('y')
assume(X is not Y)
opts = options()
what = pick('tuple', 'list', 'dict-value', 'dict-key', 'union', 'inner')
leaf = Leaf('d') if pick('leaf', 'serializer') == 'leaf' else Property('d', serializer=ser)
if what == 'tuple':
    r = Tuple('d', leaf).serialize((X, Y), **opts)
elif what == 'list':
    r = List('d', leaf).serialize([X, Y], **opts)
elif what == 'inner':
    r = [e[0] for e in List('d', List('d', leaf)).serialize([[X], [Y]], **opts)]
elif what == 'dict-value':
    d = Dictionary('d', value_prop=leaf).serialize({'p': X, 'q': Y}, **opts)
    must(set(d) == {'p', 'q'}, 'every key is kept')
    r = [d['p'], d['q']]
elif what == 'dict-key':
    d = Dictionary('d', key_prop=leaf).serialize({'p': X}, **opts)
    must(list(d.values()) == [X], 'every value is kept')
    r = list(d)
else:
    r = [Union('d', [leaf, Integer('d')]).serialize(X, **opts)]
calls = ss + js
if what == 'dict-key':
    must(len(r) == 1 and len(calls) == 1 and calls[0][0] == ('p',), 'every key is converted once')
elif what == 'union':
    must(len(calls) <= 1 and (len(calls) == 1 or r[0] is X), 'a value is converted once')
    must(X is None or len(calls) == 1, 'a value is converted once')
else:
    must(len(r) == 2, 'every element is kept')
    for i, e in ((0, X), (1, Y)):
        if e is None and len(ss) == 0:
            must(r[i] is None, 'None serializes to None')
        else:
            must(isinstance(r[i], tuple) and len([c for c in calls if c[0][0] is e]) == 1, 'every element is converted once')
for c in calls:
    must(reached(c, opts), 'the options reach every element')
''', paths=400)

    # -- serializers registered on the parts of a union, of a dynamic property
    add('dynamic-serializer', LEAF + '''
X = sym('x')
class K(HasProperties):
    @Property('d', serializer=ser)
    def dyn(self):
        return X
k = K()
opts = options()
r = k.serialize(**opts)
if opts.get('save_dynamic', False):
    must(len(ss) == 1 and reached(ss[0], opts), 'the serializer gets the options')
    must(ss[0][0][0] is (None if X is undefined else X), 'the serializer gets the value')
    must('dyn' in r and r['dyn'][0] == 'serialized', 'a registered serializer decides')
else:
    must('dyn' not in r and len(ss) == 0, 'dynamic properties appear only on request')
''')
    add('dropped-none', '''
class K(HasProperties):
    x = Property('d', serializer=lambda value: None)
    y = Property('d')
k = K(x=1, y=2)
r = k.serialize(include_class=False)
must(r == {'y': 2}, 'a value serialized to None is not written')
''')
    # -- the caller's options are not altered; a failure leaves the instance usable
    add('options-kept', LEAF + '''
class In(HasProperties):
    v = Leaf('d')
class K(HasProperties):
    x = pick(List('d', In), Tuple('d', In, coerce=True))
    y = Dictionary('d')
k = K(x=[In(v=1)], y={'a': 1})
opts = options()
before = dict(opts)
r = k.serialize(**opts)
must(opts == before, "the caller's options are not altered")
''')
    add('failure', '''
F = fn('F', ValueError, TypeError, KeyError)
class K(HasProperties):
    y = Property('d')
    x = Property('d', serializer=lambda value, **kw: F(value))
    z = Property('d')
k = K(x=1, y=2, z=3)
before = dict(k._backend)
r = outcome(k.serialize(include_class=False))
must(k._backend == before, 'a failing serializer leaves the instance unchanged')
k.x = 2
class L(K):
    x = Property('d')
del k.x
r2 = outcome(k.serialize(include_class=False))
must(r2.ok and r2.value == {'y': 2, 'z': 3}, 'the instance can be serialized after a failure')
''')
    add('self-reference', '''
class K(HasProperties):
    x = Property('d')
    n = Instance('d', HasProperties, required=False)
a = K(x=1)
b = K(x=2, n=a)
shape = pick('self', 'cycle', 'shared')
if shape == 'self':
    a.n = a
elif shape == 'cycle':
    a.n = b
r = outcome(b.serialize())
if shape == 'shared':
    must(r.ok and r.value['n'] == {'x': 1, '__class__': 'K'}, 'a nested instance is written')
else:
    must(not r.ok and isinstance(r.error, SelfReferenceError), 'a reference to itself is reported')
    del a.n
    r = outcome(b.serialize())
    must(r.ok and r.value['n'] == {'x': 1, '__class__': 'K'}, 'and can be serialized afterwards')
    must(a.serialize() == {'x': 1, '__class__': 'K'}, 'and can be serialized afterwards')
''')
    add('shared', '''
class In(HasProperties):
    v = Integer('d')
class K(HasProperties):
    l = List('d', In)
    a = Instance('d', In)
    b = Instance('d', In)
s = In(v=1)
k = K(l=[s, s], a=s, b=s)
r = k.serialize(include_class=False)
must(r == {'l': [{'v': 1}, {'v': 1}], 'a': {'v': 1}, 'b': {'v': 1}}, 'a shared instance is written everywhere')
''')
    add('default-serializer', '''
# a registered serializer learns that class names are included unless the caller said otherwise
heard = []
def se(value, **kwargs):
    heard.append(kwargs)
    return value
x = pick(None, [1])
for p in [Property('d', serializer=se), List('d', serializer=se), Dictionary('d', serializer=se),
          Union('d', [Integer('d')], serializer=se), Array('d', serializer=se), Instance('d', In, serializer=se),
          Tuple('d', serializer=se), Set('d', serializer=se), Vector3('d', serializer=se)]:
    for opts in ({}, {'include_class': False}, {'include_class': True}):
        del heard[:]
        p.serialize(x, **opts)
        must(len(heard) == 1, 'the serializer runs once')
        must(heard[0].get('include_class', True) == opts.get('include_class', True), 'the serializer learns whether class names are wanted')
def need(value, include_class, **kwargs):
    return ('got', value)
p = pick(Property('d', serializer=need), List('d', serializer=need), Dictionary('d', serializer=need),
         Union('d', [Integer('d')], serializer=need))
r = outcome(p.serialize([1]))
must(r.ok and r.value == ('got', [1]), 'the serializer is told whether class names are wanted')
''', paths=600)
    return S
