"""A union behaves as its first applicable member."""
from engine.explore import Scenario

HEAD = '''
log = []
def member(tag, V, S, D, A):
    class P(Property):
        class_info = tag
        def validate(self, instance, value):
            log.append((tag, 'validate', instance, value))
            return V(value)
        def assert_valid(self, instance, value=None):
            log.append((tag, 'assert_valid', instance, value))
            return A(value)
        def serialize(self, value, **kwargs):
            log.append((tag, 'serialize', dict(kwargs), value))
            return S(value)
        def deserialize(self, value, **kwargs):
            log.append((tag, 'deserialize', dict(kwargs), value))
            return D(value)
    return P('member ' + tag)
'''
ERRS = 'ValueError, KeyError, TypeError, AttributeError, ValidationError'
FNS = '''
V0, V1, V2 = fn('V0', %(e)s), fn('V1', %(f)s), fn('V2', %(f)s)
S0, S1, S2 = fn('S0'), fn('S1'), fn('S2')
D0, D1, D2 = fn('D0', %(e)s), fn('D1', %(f)s), fn('D2', %(f)s)
A0, A1, A2 = fn('A0', %(e)s), fn('A1', %(f)s), fn('A2', %(f)s)
V, S, D, A = [V0, V1, V2], [S0, S1, S2], [D0, D1, D2], [A0, A1, A2]
n = pick(0, 1, 2, 3)
members = [member('m' + str(i), V[i], S[i], D[i], A[i]) for i in range(n)]
def first(fs, value):
    """The position of the first function that accepts the value."""
    for i in range(n):
        if outcome(fs[i](value)).ok:
            return i
    return None
class H(HasProperties):
    pass
x = sym('x')
''' % dict(e=ERRS, f='ValueError, ValidationError')


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 600)
        S.append(Scenario(name, HEAD + src, **k))

    add('validate', FNS + '''
inst = pick(None, H())
u = Union('d', pick(members, tuple(members)))
u.name = 'field'
r = outcome(u.validate(inst, x))
asked = list(log)
i = first(V, x)
must(r.ok == (i is not None), 'a value is accepted exactly when a member accepts it')
if r.ok:
    must(same(r.value, V[i](x)), 'the first member that accepts decides the result')
    must(len(asked) == i + 1, 'the members are asked in order, up to the first that accepts')
else:
    must(isinstance(r.error, ValidationError), 'a value every member rejects is a validation error')
    must(len(asked) == n, 'every member is asked')
for j in range(len(asked)):
    must(asked[j][0] == 'm' + str(j) and asked[j][1] == 'validate', 'the members are asked in order')
    must(asked[j][2] is inst and asked[j][3] is x, 'the members get the value and the instance')
''')
    add('assert_valid', FNS + '''
class K(HasProperties):
    u = Union('d', members, required=pick(True, False))
k = K()
given = pick(True, False)
stored = pick(None, x)
assume(x is not None and x is not undefined)
k._backend['u'] = stored
log.clear()
u = k._props['u']
value = x if given else stored
r = outcome(u.assert_valid(k, x) if given else u.assert_valid(k))
asked = [e for e in log if e[1] == 'assert_valid']
if value is None:
    must(r.ok == (not u.required), 'a missing value is invalid exactly when it is required')
    if r.ok:
        must(r.value, 'a missing value that is not required is valid')
else:
    accepted = first(V, x)
    i = first(A, x)
    if r.ok and r.value:
        must(i is not None, 'a value is valid when a member says so')
        must(accepted is not None, 'a valid value is accepted')
        must(len(asked) == i + 1, 'the members are asked in order, up to the first that answers')
        must(bool(r.value) == bool(A[i](x)), 'the first member that answers decides')
    if not r.ok:
        must(i is None or accepted is None or not same(V[accepted](x), x), 'a value a member finds valid is valid')
        must(isinstance(r.error, ValidationError), 'an invalid value is a validation error')
    for j in range(len(asked)):
        must(asked[j][0] == 'm' + str(j), 'the members are asked in order')
        must(asked[j][2] is k and asked[j][3] is x, 'the members get the value and the instance')
''', paths=900)
    add('serialize', FNS + '''
u = Union('d', members)
opts = pick({}, {'include_class': False}, {'mult': 2})
r = outcome(u.serialize(x, **opts))
must(r.ok, 'serialization moves on when a member rejects the value')
if x is None:
    must(r.value is None, 'None serializes to None')
else:
    i = first(V, x)
    said = [e for e in log if e[1] == 'serialize']
    if i is None:
        must(len(said) == 0, 'no member serializes a value it rejects')
        must(r.value is x or isinstance(x, HasProperties), 'a value of no member is left alone')
    else:
        must(same(r.value, S[i](x)), 'the first member that accepts the value serializes it')
        must(len(said) == 1 and said[0][0] == 'm' + str(i), 'only the first member that accepts serializes')
        must(said[0][3] is x, 'the member gets the value')
        for o in opts:
            must(said[0][2][o] is opts[o], 'the member gets the options')
''')
    add('deserialize', FNS + '''
strict = pick(True, False)
u = Union('d', members, strict_instances=strict)
opts = pick({}, {'trusted': True}, {'mult': 2})
assume(not isinstance(x, dict))
r = outcome(u.deserialize(x, **opts))
must(r.ok, 'deserialization moves on when a member rejects the value')
if x is None:
    must(r.value is None, 'None deserializes to None')
else:
    want = None
    for i in range(n):
        if want is None and outcome(D[i](x)).ok and outcome(V[i](D[i](x))).ok:
            want = i
    said = [e for e in log if e[1] == 'deserialize']
    checked = [e for e in log if e[1] == 'validate']
    if want is None:
        must(r.value is x, 'a value of no member is left alone')
        must(len(said) == n, 'every member is asked')
    else:
        must(same(r.value, D[want](x)) or same(r.value, V[want](D[want](x))), 'the first member that accepts decides')
        must(len(said) == want + 1, 'the members are asked in order')
    for j in range(len(said)):
        must(said[j][0] == 'm' + str(j), 'the members are asked in order')
        must(said[j][3] is x, 'the members get the value')
        for o in opts:
            must(said[j][2][o] is opts[o], 'the members get the options')
''', paths=1200)
    add('deserialize-dict', FNS + '''
u = Union('d', members)
data = {'a': 1}
tag = pick(None, '', 'Nobody', 'H')
if tag is not None:
    data['__class__'] = tag
r = outcome(u.deserialize(data))
must(r.ok, 'deserialization moves on when a member rejects the value')
want = None
for i in range(n):
    if want is None and outcome(D[i](data)).ok and outcome(V[i](D[i](data))).ok:
        want = i
if want is None:
    must(r.value is data, 'a value of no member is left alone')
else:
    must(same(r.value, D[want](data)) or same(r.value, V[want](D[want](data))), 'the first member that accepts decides')
''', paths=1200)
    add('tagged', '''
class A(HasProperties):
    v = Integer('d', required=False)
class B(HasProperties):
    v = Integer('d', required=False)
class Sub(A):
    w = Integer('d', required=False)
D = fn('D', ValueError)
class P(Property):
    class_info = 'p'
    def deserialize(self, value, **kwargs):
        log.append(value)
        return D(value)
def order():
    p = P('d')
    return pick([A, B, p], [B, A, p], [p, A, B], [p, B, A], [A, Sub, B], [Sub, B, A], [Instance('d', A), Instance('e', B)])
props = order()
u = Union('d', props, strict_instances=pick(True, False))
tag = pick('A', 'B', 'Sub')
trusted = pick(True, False)
r = outcome(u.deserialize({'__class__': tag, 'v': 1}, trusted=trusted))
classes = [getattr(p, 'instance_class', p) for p in props]
if Sub in classes or tag != 'Sub':
    must(len(log) == 0, 'no other member is asked')
    must(r.ok, 'data tagged with the class of a member is accepted')
    must(type(r.value).__name__ == tag and r.value.v == 1, 'the member of that class decides')
''')
    add('tagged-bad', '''
class A(HasProperties):
    v = Integer('d', required=False)
class P(Property):
    class_info = 'p'
    def deserialize(self, value, **kwargs):
        log.append(value)
        return value
u = Union('d', pick([A, P('d')], [P('d'), A]))
r = outcome(u.deserialize({'__class__': 'A', 'v': 'x'}))
must(len(log) == 0, 'data tagged with the class of a member is for that member')
must(not r.ok and isinstance(r.error, (ValidationError, ValueError)), 'data the member refuses is refused')
''')
    add('real', '''
class A(HasProperties):
    v = Integer('d')
class B(HasProperties):
    v = String('d')
for props, value, want in (
        ([Integer('i'), Float('f')], 1.0, int), ([Float('f'), Integer('i')], 1, float),
        ([Integer('i'), Float('f')], 1.5, float), ([Boolean('b'), Integer('i')], 1, int),
        ([Boolean('b'), Integer('i')], True, bool), ([String('s'), Color('c')], 'red', str),
        ([Color('c'), String('s')], 'red', tuple), ([Color('c'), String('s')], 'nored', str),
        ([StringChoice('s', choices=['a']), Integer('i')], 3, int), ([StringChoice('s', choices=['a']), String('i')], 'b', str),
        ([Tuple('t', Integer('i')), List('l')], [1], list), ([List('l', Integer('i')), List('m', String('s'))], ['a'], list),
        ([A, B], {'v': 'a'}, B), ([A, B], {'v': 1}, A), ([B, A], {'v': 1}, A), ([A, Dictionary('d')], {'w': 1}, dict),
        ([Dictionary('d'), A], {'v': 1}, dict), ([Set('s', coerce=True), List('l')], [1], set),
        ([Union('u', [Integer('i'), String('s')]), Float('f')], 1.5, float),
        ([Float('f'), Union('u', [Integer('i'), String('s')])], 'a', str),
        ([Integer('i', min=5), Float('f')], 3, float), ([Complex('c'), String('s')], 1, complex)):
    u = Union('d', props)
    class K(HasProperties):
        x = u
    r = outcome(u.validate(None, value))
    must(r.ok and type(r.value) is want, 'the first member that accepts decides')
    r = outcome(K(x=value))
    must(r.ok and type(r.value.x) is want and r.value.validate(), 'the first member that accepts decides')
for props, value in (([Integer('i'), String('s')], 1.5), ([A, B], {'v': []}), ([A, String('s')], {'w': 1}), ([], 1),
                     ([Integer('i', max=1), StringChoice('s', choices=['a'])], 2),
                     ([Union('u', [Integer('i'), String('s')]), Boolean('f')], [])):
    r = outcome(Union('d', props).validate(None, value))
    must(not r.ok and isinstance(r.error, ValidationError), 'a value no member accepts is a validation error')
''', paths=10)
    add('real-json', '''
class A(HasProperties):
    v = Integer('d', required=False)
class C(HasProperties):
    w = List('d', Integer('d'))
when = '2020-01-02T03:04:05Z'
for props, value, text in (
        ([Integer('i'), Array('a')], 1, 1), ([Float('f'), Integer('i')], 2, 2.0), ([Complex('c'), Float('f')], 1j, '1j'),
        ([String('s'), Complex('c')], 1j, '1j'), ([Boolean('b'), List('l', Complex('c'))], [1j], ['1j']),
        ([A, C], C(w=[1]), {'__class__': 'C', 'w': [1]}), ([Dictionary('d'), A], A(v=1), {'__class__': 'A', 'v': 1}),
        ([Tuple('t'), List('l', A)], [A(v=1)], [{'__class__': 'A', 'v': 1}]),
        ([List('l', Float('f')), Dictionary('d', value_prop=A)], {'k': A(v=1)}, {'k': {'__class__': 'A', 'v': 1}}),
        ([Union('u', [Integer('i'), A]), String('s')], A(v=1), {'__class__': 'A', 'v': 1})):
    r = outcome(Union('d', props).serialize(value))
    must(r.ok and r.value == text, 'the member of the value serializes it')
for props, text, want in (
        ([Integer('i'), String('s')], '1', 1), ([String('s'), Integer('i')], '1', '1'), ([Integer('i'), String('s')], 'a', 'a'),
        ([Boolean('b'), String('s')], 'yes', True), ([Boolean('b'), String('s')], 'abc', 'abc'),
        ([Integer('i', max=3), Float('f')], '7', 7.0), ([Integer('i', max=3), String('s')], '7', '7'),
        ([StringChoice('s', choices=['x']), Integer('i')], '4', 4), ([Tuple('t'), List('l')], [1], (1,)),
        ([List('l', Integer('i')), List('m', String('s'))], ['a'], ['a']),
        ([List('l', Integer('i')), List('m', String('s'))], ['1'], [1])):
    r = outcome(Union('d', props).deserialize(text))
    must(r.ok and r.value == want and type(r.value) is type(want), 'the first member that accepts decides')
u = Union('d', [A, C])
r = outcome(u.deserialize({'w': [1]}))
must(r.ok, 'data without a tag goes to the first member that accepts')
r = outcome(u.deserialize({'__class__': 'C', 'w': ['1']}))
must(r.ok and type(r.value) is C and r.value.w == [1], 'tagged data goes to the member of that class')
''', paths=10)
    add('strict', '''
class A(HasProperties):
    v = Integer('d', required=False)
class C(HasProperties):
    w = List('d', Integer('d'))
u = Union('d', pick([A, C], [C, A]), strict_instances=True)
r = outcome(u.deserialize({'w': [1]}))
must(r.ok and type(r.value) is C, 'strict members reject data with unknown entries')
r = outcome(u.deserialize({'v': 1}))
must(r.ok and type(r.value) is A, 'strict members reject data with unknown entries')
''')
    add('names', '''
E1, E2 = fn('E1'), fn('E2')
p, q = Property('p'), Integer('q')
nested = Union('n', [q])
u = Union('d', [p, nested])
class K(HasProperties):
    field = u
must(u.name == 'field' and p.name == 'field' and nested.name == 'field' and q.name == 'field',
     'the members of a union have its name')
''')
    add('errors', '''
class P(Property):
    class_info = 'something unusual'
    def validate(self, instance, value):
        raise ValidationError('because of this', 'invalid', self.name, instance)
class Q(Property):
    class_info = 'something else'
    def validate(self, instance, value):
        raise pick(ValueError, TypeError, KeyError, AttributeError)('no')
class K(HasProperties):
    x = Union('d', pick([P('d'), Q('d')], [Q('d'), P('d')], [P('d'), P('e')]))
k = K()
r = outcome(setattr(k, 'x', 3))
must(not r.ok and isinstance(r.error, ValidationError), 'a value no member accepts is a validation error')
must(len(r.error.error_tuples) == 1, 'one error is reported for a union')
t = r.error.error_tuples[0]
must(t.prop == 'x' and t.instance is k, 'the error names the property and the instance')
must(mentions(t.message, 'because of this'), 'the explanations of the members are reported')
must(k.x is None, 'nothing is stored')
''')
    add('not-usual', '''
R = pick(RuntimeError('x'), KeyboardInterrupt(), ZeroDivisionError('x'))
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        raise R
u = Union('d', [P('d'), Property('q')])
r = outcome(u.validate(None, 3))
must(not r.ok and r.error is R, 'a failure that is no usual error type is not hidden')
''')
    add('equal', '''
E = [fn('E0'), fn('E1'), fn('E2')]
class P(Property):
    class_info = 'p'
    def equal(self, value_a, value_b):
        return E[int(self.doc)](value_a, value_b)
n = pick(0, 1, 2, 3)
p = Union('d', [P(str(i)) for i in range(n)])
a, b = sym('a'), sym('b')
r = outcome(p.equal(a, b))
good = False
for i in range(n):
    if E[i](a, b):
        good = True
must(r.ok and bool(r.value) == good, 'values are equal when any member says so')
''')
    add('similar-names', '''
class A(HasProperties):
    v = Integer('d', required=False)
class AB(HasProperties):
    w = Integer('d', required=False)
class B(HasProperties):
    z = Integer('d', required=False)
u = Union('d', pick([A, AB, B], [AB, A, B], [B, AB, A]))
tag = pick('A', 'B', 'AB')
r = outcome(u.deserialize({'__class__': tag}))
must(r.ok and type(r.value).__name__ == tag, 'the member of that class decides')
r = outcome(Union('d', [AB]).deserialize({'__class__': tag, 'w': 3}))
must(r.ok and type(r.value) is AB and r.value.w == 3, 'the first member that accepts decides')
''')
    add('strict-valid', '''
class A(HasProperties):
    v = Integer('d')
    w = Integer('d', required=False)
class B(HasProperties):
    w = Integer('d', required=False)
strict = pick(True, False)
u = Union('d', [A, B], strict_instances=strict)
r = outcome(u.deserialize({'w': 1}))
must(r.ok, 'data without a tag goes to the first member that accepts')
must(type(r.value) is (B if strict else A), 'strict members reject data of invalid instances')
''')
    return S
