"""validate() runs every class validator and checks every declared property before it answers True."""
from engine.explore import Scenario

OUT = '''
def act(kind):
    "One validator outcome."
    if kind == 'false':
        return False
    if kind == 'error':
        raise ValidationError('bad')
    if kind == 'other':
        raise KeyError('bad')
    if kind == 'true':
        return True
    if kind == 'zero':
        return 0
    return None
def fails(kind):
    return kind in ('false', 'error', 'other')
'''

SWITCH = '''
# a property whose verdict on stored values may differ from the one at assignment
V = fn('V', ValidationError, KeyError)
EQ = fn('EQ')
late = []
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        if late:
            return V(value)
        return value
    def equal(self, value_a, value_b):
        return EQ(value_a, value_b)
'''


def scenarios():
    S = []

    def add(name, src, **k):
        S.append(Scenario(name, src, **k))

    add('class-validators', OUT + '''
k1 = pick('none', 'true', 'false', 'error', 'other', 'zero')
k2 = pick('none', 'false', 'error', 'other')
k3 = pick('none', 'false', 'error')
ran = []
class A(HasProperties):
    @validator
    def one(self):
        ran.append(1)
        return act(k1)
class B(A):
    @validator
    def two(self):
        ran.append(2)
        return act(k2)
def free(self):
    ran.append(3)
    return act(k3)
B._class_validators.update({'free': properties.handlers.ClassValidator(free)})
b = B()
r = outcome(b.validate())
must(sorted(ran) == [1, 2, 3], 'every registered class validator runs exactly once')
bad = fails(k1) or fails(k2) or fails(k3)
must(r.ok == (not bad), 'validate raises exactly when a class validator fails')
if r.ok:
    must(r.value is True, 'validate answers True')
''', paths=700)
    add('required', '''
class P(Property):
    class_info = 'p'
req_p = pick(True, False)
req_q = pick(True, False)
class A(HasProperties):
    p = P('doc', required=req_p)
    q = P('doc', required=req_q)
class B(A):
    pass
b = pick(A, B)()
x = sym('x')
y = sym('y')
b.p = x
if pick(True, False):
    b.q = y
    have_q = y is not undefined and y is not None
else:
    have_q = False
have_p = x is not undefined and x is not None
late = []
r = outcome(b.validate())
missing = (req_p and not have_p) or (req_q and not have_q)
if missing:
    must(not r.ok, 'a required property without a value makes validation fail')
    must(isinstance(r.error, ValidationError), 'a missing value is a validation error')
''')
    add('default-required', '''
class P(Property):
    class_info = 'p'
class A(HasProperties):
    p = P('doc')
a = A()
r = outcome(a.validate())
must(not r.ok, 'properties are required unless declared otherwise')
''')
    add('stored-values', SWITCH + '''
class A(HasProperties):
    p = P('doc')
    q = P('doc', required=False)
class B(A):
    pass
b = pick(A, B)()
x = sym('x')
y = sym('y')
for z in (x, y):
    assume(z is not None)
    assume(z is not undefined)
assume(EQ(x, x))
assume(EQ(y, y))
b.p = x
if pick(True, False):
    b.q = y
    have_q = True
else:
    have_q = False
late.append(1)
r = outcome(b.validate())
v = outcome(V(x))
okp = v.ok and bool(EQ(x, v.value))
okq = True
if have_q:
    v = outcome(V(y))
    okq = v.ok and bool(EQ(y, v.value))
must(r.ok == (okp and okq), 'a stored value its property does not accept unchanged makes validation fail')
if r.ok:
    must(r.value is True, 'validate answers True')
must(b.p is x, 'validation stores nothing')
if have_q:
    must(b.q is y, 'validation stores nothing')
''', paths=900)
    add('stored-immutable', SWITCH + '''
class G(GettableProperty):
    class_info = 'g'
    def validate(self, instance, value):
        if late:
            return V(value)
        return value
    def equal(self, value_a, value_b):
        return EQ(value_a, value_b)
x = sym('x')
assume(x is not None)
assume(x is not undefined)
assume(not callable(x))
assume(EQ(x, x))
class A(HasProperties):
    g = G('doc', default=x)
    h = G('doc')
a = A()
late.append(1)
r = outcome(a.validate())
v = outcome(V(x))
ok = v.ok and bool(EQ(x, v.value))
must(r.ok == ok, 'read-only values are checked as well')
''')
    for cont, decl, val in (
            ('list', "List('doc', prop=E('doc'))", '[1, 2, 3]'),
            ('tuple', "Tuple('doc', prop=E('doc'))", '(1, 2, 3)'),
            ('set', "Set('doc', prop=E('doc'))", '{1, 2, 3}'),
            ('dict-key', "Dictionary('doc', key_prop=E('doc'))", '{1: 0, 2: 0, 3: 0}'),
            ('dict-value', "Dictionary('doc', value_prop=E('doc'))", '{7: 1, 8: 2, 9: 3}'),
            ('union', "Union('doc', props=[E('doc')])", '2'),
            ('list-in-list', "List('doc', prop=List('doc', prop=E('doc')))", '[[1], [], [2, 3]]'),
            ('dict-in-list', "List('doc', prop=Dictionary('doc', value_prop=E('doc')))", '[{}, {0: 1}, {0: 2, 1: 3}]'),
            ('list-in-dict', "Dictionary('doc', value_prop=List('doc', prop=E('doc')))", '{0: [], 1: [1, 2, 3]}'),
            ('union-in-dict', "Dictionary('doc', value_prop=Union('doc', props=[E('doc')]))", '{0: 1, 1: 2, 2: 3}'),
    ):
        add('element-verdict:' + cont, '''
verdict = pick('true', 'false', 'error')
asked = []
class E(Property):
    class_info = 'e'
    def assert_valid(self, instance, value=None):
        asked.append(value)
        if value != 2 or verdict == 'true':
            return True
        if verdict == 'false':
            return False
        raise ValidationError('bad')
class A(HasProperties):
    p = %s
a = A(p=%s)
r = outcome(a.validate())
must(r.ok == (verdict == 'true'), 'an element its property does not accept makes validation fail')
if not r.ok:
    must(is_kind(r.error, ValidationError), 'the failure is a validation error')
else:
    must(r.value is True, 'validation answers True')
    must(2 in asked, 'the element is checked')
''' % (decl, val))
    add('validator-callbacks', SWITCH + '''
z = sym('z')
how = pick('nothing', 'replace', 'error', 'other', 'false')
on = []
class A(HasProperties):
    p = P('doc')
    q = P('doc', required=False)
    @validator('p')
    def cb(self, change):
        if on:
            on.append(change['mode'])
            if how == 'replace':
                change['value'] = z
            elif how == 'error':
                raise ValidationError('bad')
            elif how == 'other':
                raise KeyError('bad')
            elif how == 'false':
                return False
    @observer('p')
    def ob(self, change):
        if on:
            on.append('observer')
a = A()
x = sym('x')
assume(x is not None)
assume(x is not undefined)
assume(EQ(x, x))
a.p = x
on.append('start')
r = outcome(a.validate())
must(on.count('validate') >= 1, 'validator callbacks run when the instance is validated')
must('observer' not in on, 'observers do not run when the instance is validated')
if how == 'error' or how == 'other':
    must(not r.ok, 'a value its validator callbacks reject makes validation fail')
elif how == 'replace':
    must(r.ok == bool(EQ(x, z)), 'a value its validator callbacks would alter makes validation fail')
else:
    must(r.ok, 'validation succeeds')
must(a.p is x, 'validation stores nothing')
''')
    add('nested', '''
class C(HasProperties):
    n = Property('doc')
where = pick('instance', 'list', 'tuple', 'dict', 'union', 'deep', 'dict-key', 'subclass')
bad = pick(True, False)
class D(C):
    pass
class E(HasProperties):
    c = Instance('doc', C)
class A(HasProperties):
    i = Instance('doc', C, required=False)
    l = List('doc', prop=C, required=False)
    t = Tuple('doc', prop=C, required=False)
    d = Dictionary('doc', value_prop=Instance('doc', C), required=False)
    u = Union('doc', props=[Instance('doc', C), Integer('doc')], required=False)
    e = Instance('doc', E, required=False)
good = C(n=1)
c = C() if bad else C(n=1)
a = A()
if where == 'instance':
    a.i = c
elif where == 'subclass':
    a.i = D() if bad else D(n=2)
elif where == 'list':
    a.l = [good, c]
elif where == 'tuple':
    a.t = (good, c, good)
elif where == 'dict':
    a.d = {'x': good, 'y': c}
elif where == 'union':
    a.u = c
elif where == 'dict-key':
    a.d = {'x': c, 'y': good}
else:
    a.e = E(c=c)
r = outcome(a.validate())
must(r.ok == (not bad), 'nested instances and elements are validated recursively')
if r.ok:
    must(r.value is True, 'validate answers True')
''', steps=120000)
    add('elements', SWITCH + '''
where = pick('list', 'tuple', 'dict-value', 'dict-key', 'union')
class A(HasProperties):
    l = List('doc', prop=P('doc'), required=False)
    t = Tuple('doc', prop=P('doc'), required=False)
    d = Dictionary('doc', value_prop=P('doc'), required=False)
    k = Dictionary('doc', key_prop=P('doc'), required=False)
    u = Union('doc', props=[P('doc')], required=False)
x = sym('x')
y = sym('y')
for z in (x, y):
    assume(z is not None)
    assume(z is not undefined)
a = A()
if where == 'list':
    a.l = [y, x]
elif where == 'tuple':
    a.t = (y, x)
elif where == 'dict-value':
    a.d = {'a': y, 'b': x}
elif where == 'dict-key':
    a.k = {'a': 1}
else:
    a.u = x
late.append(1)
assume(outcome(V(y)).ok)
assume(V(y) is y)
v = outcome(V(x))
r = outcome(a.validate())
if not v.ok and where != 'dict-key':
    must(not r.ok, 'an element its property rejects makes validation fail')
w = outcome(V('a'))
if where == 'dict-key' and not w.ok:
    must(not r.ok, 'a key its property rejects makes validation fail')
''', paths=900, wall=60, steps=120000)
    add('lengths', '''
n = pick(0, 1, 2, 3)
lo = pick(None, 0, 1, 2)
hi = pick(None, 1, 2)
if lo is not None and hi is not None:
    assume(lo <= hi)
kind = pick('list', 'tuple', 'set')
opts = {}
if lo is not None:
    opts['min_length'] = lo
if hi is not None:
    opts['max_length'] = hi
class A(HasProperties):
    c = {'list': List, 'tuple': Tuple, 'set': Set}[kind]('doc', **opts)
vals = [10, 11, 12][:n]
if kind == 'list':
    v = vals
elif kind == 'tuple':
    v = tuple(vals)
else:
    v = set(vals)
a = A()
a.c = v
r = outcome(a.validate())
good = (lo is None or lo <= n) and (hi is None or n <= hi)
must(r.ok == good, 'a wrongly sized container makes validation fail, bounds inclusive')
''', paths=600)
    add('nested-lengths', '''
class A(HasProperties):
    c = List('doc', prop=List('doc', max_length=1))
    u = Union('doc', props=[List('doc', max_length=1), Integer('doc')], required=False)
n = pick(0, 1, 2)
m = pick(0, 1, 2)
a = A(c=[[1, 2][:m], [3, 4][:n]])
a.u = [5, 6][:n]
r = outcome(a.validate())
must(r.ok == (n <= 1 and m <= 1), 'wrongly sized nested containers make validation fail')
''')
    add('assert-valid-all-types', '''
# whatever the property type, a stored value that is no longer acceptable is reported
kind = pick('integer', 'string', 'choice', 'list', 'instance', 'union')
class C(HasProperties):
    n = Integer('doc')
def make():
    if kind == 'integer':
        return Integer('doc', max=5), 3, 9
    if kind == 'string':
        return String('doc'), 'a', 7
    if kind == 'choice':
        return StringChoice('doc', choices=['a', 'b']), 'a', 'c'
    if kind == 'list':
        return List('doc', prop=Integer('doc')), [1], [1, 'z']
    if kind == 'instance':
        return Instance('doc', C), C(n=1), C()
    return Union('doc', props=[Integer('doc'), List('doc', prop=Integer('doc'))]), 3, ['z']
prop, good, bad = make()
class A(HasProperties):
    p = prop
a = A()
a.p = good
must(a.validate() is True, 'a valid instance validates')
a._backend['p'] = bad
r = outcome(a.validate())
must(not r.ok, 'a stored value its property does not accept makes validation fail')
must(isinstance(r.error, ValueError), 'invalid values raise a ValueError')
''', steps=120000)
    add('many-properties', '''
# the verdict does not depend on which property is the invalid one
which = pick(0, 1, 2, 3, 4)
class A(HasProperties):
    a = Property('doc')
    b = Property('doc')
class B(A):
    c = Property('doc')
    d = Property('doc')
b = B()
for i, nm in enumerate(['a', 'b', 'c', 'd']):
    if i != which:
        setattr(b, nm, i)
r = outcome(b.validate())
must(r.ok == (which == 4), 'every declared or inherited property is checked')
''')
    add('again', OUT + '''
# the verdict of one call does not leak into the next
k = pick('false', 'error', 'other', 'none')
kinds = [k, 'none', k]
n = []
class A(HasProperties):
    p = Property('doc', required=False)
    @validator
    def one(self):
        n.append(1)
        return act(kinds[len(n) - 1])
a = A()
r1 = outcome(a.validate())
r2 = outcome(a.validate())
r3 = outcome(a.validate())
must(r1.ok == (not fails(k)), 'each call gives its own verdict')
must(r2.ok, 'each call gives its own verdict')
must(r3.ok == (not fails(k)), 'each call gives its own verdict')
''')
    return S
