"""Class construction: inheritance, registry and documentation."""
from engine.explore import Scenario

HEAD = '''
fired = []
made = []
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        made.append(self)
        return value
def build(name, bases, body):
    if any(isinstance(b, type(HasProperties)) for b in bases):
        return type(HasProperties)(name, bases, body)
    return type(name, bases, body)
def nearest(cls, own):
    """What the nearest class along the method resolution order says."""
    for c in cls.__mro__:
        if c in own and own[c] is not None:
            return own[c]
    return None
H = HasProperties
'''

# class lattices: name, bases; 'o' is a plain class
SHAPES = {
    'chain': [('A', 'H'), ('B', 'A'), ('C', 'B')],
    'diamond': [('A', 'H'), ('B', 'A'), ('C', 'A'), ('D', 'B, C')],
    'pair': [('A', 'H'), ('B', 'H'), ('C', 'A, B')],
    'cross': [('S', 'H'), ('T', 'H'), ('P_', 'S, T'), ('Q', 'S'), ('D', 'P_, Q')],
    'mixin': [('M', 'object'), ('A', 'H'), ('K', 'M, A')],
    'mixin-last': [('M', 'object'), ('A', 'H'), ('K', 'A, M')],
    'mixin-mid': [('M', 'object'), ('A', 'H'), ('B', 'M, A'), ('K', 'B')],
    'mixin-both': [('M', 'object'), ('A', 'M, H'), ('B', 'A'), ('K', 'B, M')],
    'late': [('A', 'H'), ('B', 'A'), ('C', 'A'), ('E', 'C'), ('D', 'E, B')],
}


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 400)
        S.append(Scenario(name, HEAD + src, **k))

    for shape, classes in sorted(SHAPES.items()):
        last = classes[-1][0]
        kinds = {c: ("'nothing', 'plain'" if 'H' not in b and not any(x[0] in b for x in classes) else "'nothing', 'prop', 'plain'")
                 for c, b in classes}

        def lattice(make):
            out = 'own = {}\n'
            for i, (c, b) in enumerate(classes):
                ks = kinds[c]
                if len(classes) == 5 and i == 4:
                    ks = "'nothing'"
                out += '''
what = pick(%s)
thing = None
body = {}
if what == 'prop':
    thing = %s
    body['x'] = thing
elif what == 'plain':
    thing = 'plain'
    body['x'] = %d
%s = build('%s', (%s,), body)
own[%s] = thing
''' % (ks, make, i, c, c, b, c)
            return out + 'last = %s\n' % last
        add('props-' + shape, lattice("P('d', required=False)") + '''
want = nearest(last, own)
if isinstance(want, P):
    must('x' in last._props and last._props['x'] is want, 'the nearest definition of a property wins')
    must(want.name == 'x', 'a property knows its name')
    k = last()
    k.x = 5
    must(k.x == 5 and made[-1] is want, 'assigning uses the nearest definition')
    must(k.validate(), 'the value is valid')
    must(made[-1] is want, 'validating uses the nearest definition')
else:
    must('x' not in last._props, 'a name that is overridden or not declared is no property')
    k = last()
    must(len(k.serialize(include_class=False)) == 0, 'a name that is overridden or not declared is no property')
    if want is None:
        must(not hasattr(k, 'x'), 'an undeclared name is no attribute')
    else:
        must(hasattr(k, 'x') and isinstance(k.x, int), 'what overrides a property stays as it is')
''', paths=900)
        for kind, make, fire in (
                ('observers', "properties.observer('v')(Fire('%s'))", "k.v = 1\n"),
                ('set-validators', "properties.validator('v')(Fire('%s'))", "k.v = 1\n"),
                ('validators', "properties.validator(Fire('%s'))", "k.validate()\n")):
            out = 'own = {}\n'
            for i, (c, b) in enumerate(classes):
                ks = kinds[c]
                if len(classes) == 5 and i == 4:
                    ks = "'nothing'"
                out += '''
what = pick(%s)
thing = None
body = {%s}
if what == 'prop':
    thing = '%s'
    body['x'] = %s
elif what == 'plain':
    thing = 'plain'
    body['x'] = make_plain('plain')
%s = build('%s', (%s,), body)
own[%s] = thing
''' % (ks, "'v': Property('d', required=False)" if "'prop'" in ks and 'H' in b.split(', ') else '', c, make % c, c, c, b, c)
            add('%s-%s' % (kind, shape), '''
def Fire(name):
    def f(self, change=None):
        fired.append(name)
        return True
    return f
def make_plain(name):
    def f(self, change=None):
        fired.append(name)
        return True
    return f
''' + out + 'last = %s\n' % last + '''
want = nearest(last, own)
k = last()
fired.clear()
''' + fire + '''
if want is None or want == 'plain':
    must(len(fired) == 0, 'a callback that is overridden or not declared is not called')
else:
    must(fired == [want], 'the nearest definition of a callback is called, once')
''', paths=900)
    # -------------------------------------------------------------- basics
    add('exactly', '''
class A(HasProperties):
    b = Property('d')
    a = properties.GettableProperty('d')
    n = 5
    def m(self):
        return 1
    @properties.Integer('d')
    def dyn(self):
        return 1
    old = Renamed('b')
class B(A):
    c = Property('d')
    a = None
    def dyn(self):
        return 2
class C(B):
    a = Property('d')
must(set(A._props) == {'a', 'b', 'dyn', 'old'}, 'a class has the properties it declares')
must(set(B._props) == {'b', 'c', 'old'}, 'a class has the properties it declares or inherits')
must(set(C._props) == {'a', 'b', 'c', 'old'}, 'a class has the properties it declares or inherits')
for cls in (A, B, C):
    for n in cls._props:
        must(cls._props[n].name == n, 'a property knows its name')
must(set(A._props) == {'a', 'b', 'dyn', 'old'}, 'subclasses do not change their bases')
must(B().dyn() == 2 and B.a is None, 'what overrides a property stays as it is')
must(len(HasProperties._props) == 0, 'subclasses do not change their bases')
''')
    add('separate', '''
class A(HasProperties):
    x = Property('d', required=False)
    @properties.observer('x')
    def seen(self, change):
        fired.append(('A', self))
class B(A):
    y = Property('d', required=False)
    @properties.observer(['x', 'y'])
    def too(self, change):
        fired.append(('B', self))
class C(A):
    @properties.observer(properties.everything)
    def all(self, change):
        fired.append(('C', self))
    z = Property('d', required=False)
a, b, c = A(), B(), C()
a.x = 1
must([n for n, o in fired] == ['A'], 'callbacks of subclasses do not concern their bases')
fired.clear()
b.x = 1
must(sorted([n for n, o in fired]) == ['A', 'B'], 'inherited and declared callbacks are called')
fired.clear()
b.y = 1
must([n for n, o in fired] == ['B'], 'callbacks hear what they observe')
fired.clear()
c.z = 1
must([n for n, o in fired] == ['C'], 'observing everything includes what is declared')
fired.clear()
c.x = 1
must(sorted([n for n, o in fired]) == ['A', 'C'], 'observing everything includes what is inherited')
for n, o in fired:
    must(o is c, 'callbacks are called on the instance')
''')
    add('methods', '''
class A(HasProperties):
    x = Property('d', required=False)
    @properties.observer('x')
    def seen(self, change):
        fired.append(change['value'])
        return 'result'
    @properties.validator
    def check(self):
        fired.append('check')
        return True
a = A()
must(a.seen({'value': 3}) == 'result' and fired == [3], 'a callback is an ordinary method, too')
must(a.check() is True, 'a callback is an ordinary method, too')
must('seen' not in A._props and 'check' not in A._props, 'a callback is no property')
''')
    # ------------------------------------------------------------ refusals
    add('observed-names', '''
class Base(HasProperties):
    inherited = Property('d', required=False)
    replaced = Property('d', required=False)
name = pick('own', 'inherited', 'imm', 'dyn', 'old', 'nothing', 'replaced', 'plain', 'm', '')
many = pick(True, False)
deco = pick(properties.observer, properties.validator)
names = ['own', name] if many else name
def make():
    class K(Base):
        own = Property('d', required=False)
        imm = properties.GettableProperty('d')
        old = Renamed('own')
        plain = 3
        replaced = 4
        def m(self):
            return 1
        @properties.Integer('d')
        def dyn(self):
            return 1
        @deco(names)
        def seen(self, change):
            fired.append(change['name'])
    return K
r = outcome(make())
must(r.ok == (name in ('own', 'inherited')), 'only mutable properties of the class are observed')
if r.ok:
    k = r.value()
    fired.clear()
    setattr(k, name, 1)
    must(name in fired, 'observed names are heard of')
else:
    must(isinstance(r.error, TypeError), 'observing another name is a type error')
    must('K' not in HasProperties._REGISTRY, 'a refused class is not registered')
''')
    add('doc-private', '''
v = pick(True, False, None, 1, 0, 'yes', [])
def make():
    class K(HasProperties):
        _doc_private = v
        _hidden = Property('secret')
        shown = Property('public')
    return K
r = outcome(make())
if v is True or v is False:
    must(r.ok, 'a boolean is accepted')
    must(('**_hidden**' in r.value.__doc__) == v, 'private properties are documented when asked')
    must('**shown**' in r.value.__doc__, 'public properties are documented')
    class Sub(r.value):
        _other = Property('d')
    must(('**_other**' in Sub.__doc__) == v, 'the flag is inherited')
    class Again(r.value):
        _doc_private = not v
    must(('**_hidden**' in Again.__doc__) == (not v), 'the flag can be declared again')
else:
    must(not r.ok and isinstance(r.error, AttributeError), 'a flag that is no boolean is refused')
    must('K' not in HasProperties._REGISTRY, 'a refused class is not registered')
''')
    add('doc-order', '''
v = pick(['b', 'a', 'c'], ('c', 'b', 'a'), ['a', 'b', 'c'], ['a', 'b'], [], ['a', 'b', 'c', 'd'], ['a', 'a', 'b', 'c'],
         ['a', 'b', 'b'], 'abc', {'a', 'b', 'c'}, {'a': 1}, 3, None, ['a', 'b', 'c', '_p'], ['a', 'b', '_p'])
private = pick(True, False)
def make():
    class K(HasProperties):
        _doc_order = v
        _doc_private = private
        a = Property('d')
        b = Property('d')
        c = Property('d')
        _p = Property('d')
    return K
r = outcome(make())
full = ['_p', 'a', 'b', 'c'] if private else ['a', 'b', 'c']
good = v is None or isinstance(v, (list, tuple)) and sorted(v) == full
must(r.ok == good, 'a documentation order is a list of all documented properties')
if not r.ok:
    must(isinstance(r.error, AttributeError), 'another documentation order is refused')
    must('K' not in HasProperties._REGISTRY, 'a refused class is not registered')
else:
    doc = r.value.__doc__
    order = [n for n in (v or full) if n[0] != '_']
    at = [doc.find('**' + n + '**') for n in order]
    must(at[0] >= 0 and at[0] < at[1] and at[1] < at[2], 'properties are listed in the documentation order')
''')
    # ------------------------------------------------------- documentation
    add('docstring', '''
class A(HasProperties):
    """Doc of A"""
    _doc_private = pick(True, False)
    r = Property('required one')
    o = Property('optional one', required=False)
    i = properties.GettableProperty('immutable one')
    old = Renamed('o')
    _p = Property('private one', required=pick(True, False))
    over = Property('overridden one')
class K(A):
    """Doc of K"""
    q = Integer('another one')
    over = 5
    @properties.Float('computed one')
    def dyn(self):
        return 1.0
doc = K.__doc__
must(doc.startswith('Doc of K'), 'the own docstring comes first')
lines = doc.split('\\n')
titles = ['**Required Properties:**', '**Optional Properties:**', '**Other Properties:**', '**Private Properties:**']
where = {}
current = None
for line in lines:
    if line in titles:
        must(line not in where, 'every list has one title')
        current = line
        where[line] = []
    elif line.startswith('* **'):
        where[current].append(line[4:line.index('**', 4)])
must(where[titles[0]] == ['q', 'r'], 'required properties are listed')
must(where[titles[1]] == ['o'], 'optional properties are listed')
must(where[titles[2]] == ['dyn', 'i', 'old'], 'other properties are listed')
if A._doc_private:
    must(where[titles[3]] == ['_p'], 'private properties are listed')
else:
    must(titles[3] not in where, 'private properties are listed when asked')
must('overridden one' not in doc, 'overridden properties are not listed')
for text in ('required one', 'optional one', 'immutable one', 'another one', 'computed one'):
    must(doc.count(text) == 1, 'every property is listed once')
class Empty(HasProperties):
    """Just this"""
must(Empty.__doc__ == 'Just this', 'a class without properties keeps its docstring')
''')
    add('doc-private-bases', '''
f = pick(True, False)
g = pick(True, False)
class A(HasProperties):
    _doc_private = f
    _a = Property('d')
class B(HasProperties):
    _doc_private = g
    _b = Property('d')
class Plain(HasProperties):
    _c = Property('d')
class K(A, B):
    pass
must(('**_a**' in K.__doc__) == f and ('**_b**' in K.__doc__) == f, 'the flag of the nearest base is used')
class L(Plain, A):
    pass
must(('**_a**' in L.__doc__) == f and ('**_c**' in L.__doc__) == f, 'the flag of a base is used')
''')
    add('doc-order-inherited', '''
class A(HasProperties):
    _doc_order = ['b', 'a']
    a = Property('d')
    b = Property('d')
class Same(A):
    m = 5
class More(A):
    c = Property('d')
class Other(A):
    b = None
    z = Property('d')
class Back(A):
    _doc_order = None
class Two(Same, HasProperties):
    pass
def order(cls, names):
    at = [cls.__doc__.find('**' + n + '**') for n in names]
    return at[0] >= 0 and all(at[i] < at[i + 1] for i in range(len(at) - 1))
must(order(A, ['b', 'a']), 'properties are listed in the documentation order')
must(order(Same, ['b', 'a']) and order(Two, ['b', 'a']), 'a documentation order that still fits is inherited')
must(order(More, ['a', 'b', 'c']), 'a documentation order that no longer fits is not inherited')
must(order(Other, ['a', 'z']), 'a documentation order that no longer fits is not inherited')
must(order(Back, ['a', 'b']), 'a class can return to the alphabetical order')
class Again(More):
    _doc_order = ('c', 'a', 'b')
must(order(Again, ['c', 'a', 'b']), 'properties are listed in the documentation order')
''')
    add('shared-object', '''
p = P('d', required=False)
class A(HasProperties):
    x = p
class B(HasProperties):
    y = p
must(B._props['y'].name == 'y', 'a property knows the name it was declared under last')
b = B()
b.y = 3
must(b.y == 3 and b.validate(), 'a property object can be declared again')
''')
    add('renamed', '''
class A(HasProperties):
    x = Property('d', required=False)
where = pick('own', 'base', 'nothing', 'replaced', 'method')
def make():
    class K(A):
        own = Property('d', required=False)
        n = 5
        def m(self):
            return 1
        x = 5 if where == 'replaced' else A._props['x']
        old = Renamed({'own': 'own', 'base': 'x', 'nothing': 'zz', 'replaced': 'x', 'method': 'm'}[where])
    return K
r = outcome(make())
must(r.ok == (where in ('own', 'base')), 'a renamed property names a property of the class')
if not r.ok:
    must(isinstance(r.error, TypeError) and 'K' not in HasProperties._REGISTRY, 'another new name is refused')
''')
    add('renamed-base', '''
class A(HasProperties):
    x = Property('d', required=False)
class B(A):
    pass
class K(B):
    old = Renamed('x')
k = K()
k.x = 1
must(k.old == 1, 'a renamed property may name an inherited one')
''')
    # ------------------------------------------------------------ registry
    add('registry', '''
root = HasProperties._REGISTRY
class A(HasProperties):
    _REGISTRY = {}
class B(A):
    pass
class C(B):
    _REGISTRY = dict()
class D(C):
    pass
class E(A):
    pass
class F(HasProperties):
    pass
class G(E, C):
    pass
must(A._REGISTRY == {'A': A, 'B': B, 'E': E}, 'classes are entered in the nearest registry')
must(C._REGISTRY == {'C': C, 'D': D, 'G': G}, 'classes are entered in the nearest registry')
must(root['F'] is F and root['HasProperties'] is HasProperties, 'classes are entered in the nearest registry')
for n in 'ABCDEG':
    must(n not in root, 'classes are entered in the nearest registry only')
old = F
class F(HasProperties):
    pass
must(root['F'] is F and F is not old, 'the latest class of a name is entered')
must(F._REGISTRY is root and D._REGISTRY is C._REGISTRY, 'classes share the nearest registry')
''')
    add('defaults-refused', '''
def make(name, value):
    class K(HasProperties):
        x = Integer('d', required=False)
        plain = 3
        _defaults = {name: value}
    return K
name = pick('x', 'plain', 'nothing')
value = pick(3, 'text', lambda: 4, lambda: 'text')
r = outcome(make(name, value))
good = name == 'x' and (value == 3 or value != 'text' and value() == 4)
must(r.ok == good, 'class defaults are valid values of properties')
if not r.ok:
    must(isinstance(r.error, AttributeError) and 'K' not in HasProperties._REGISTRY, 'another class default is refused')
''')
    return S
