"""Validating any value returns a value or raises a ValueError; reporting an error always raises."""
from engine.explore import Scenario

DEFS = '''
class H(HasProperties):
    pass
class Plain(object):
    pass
inst = pick(None, H())
'''

JUDGE = '''
def judge(r, p, own, x):
    "own: the type itself (not a conversion of another library) reports every rejection"
    if r.ok:
        must(not nothing(r.value) or nothing(x), 'validation never falls through without a result')
    else:
        must(isinstance(r.error, ValueError), 'a rejected value raises a ValueError')
        if own:
            must(isinstance(r.error, ValidationError), 'a value the type rejects raises a validation error')
        if isinstance(r.error, ValidationError):
            must(r.error.error_tuples[0].prop == p.name, 'the error names the property')
            must(r.error.error_tuples[0].instance is inst, 'the error names the instance')
            must(len(r.error.error_tuples) == 1, 'one rejection, one detail')
'''

# name, construction, own (rejections are all reported by the type itself), options
TYPES = [
    ('Boolean', "Boolean('doc', cast=pick(True, False))", True),
    ('Integer', "Integer('doc', cast=pick(True, False))", True),
    ('Integer-bounds', "Integer('doc', min=pick(None, -3), max=10)", True),
    ('Float', "Float('doc', cast=pick(True, False))", True),
    ('Float-bounds', "Float('doc', min=-0.5)", True),
    ('Complex', "Complex('doc', cast=pick(True, False))", True),
    ('String', "String('doc')", True),
    ('String-options', "String('doc', strip=' ', change_case=pick('upper', 'lower'), regex='^a', "
     "unicode=pick(True, False))", True),
    ('StringChoice', "StringChoice('doc', choices={'a': ['1', 'x'], 'B': 'red'}, case_sensitive=pick(True, False))",
     True),
    ('StringChoice-described', "StringChoice('doc', choices=['a', 'b'], descriptions={'a': 'd1', 'b': 'd2'})", True),
    ('Color', "Color('doc')", True),
    ('DateTime', "DateTime('doc')", True),
    ('Uuid', "Uuid('doc')", True),
    ('File', "File('doc', mode=pick(None, 'rb', 'w'))", False),
    ('File-modes', "File('doc', mode='rb', valid_modes=('rb', 'rb+'))", False),
    ('ImagePNG', "ImagePNG('doc')", False),
    ('Instance', "Instance('doc', H)", True),
    ('Instance-plain', "Instance('doc', sym('cls', type))", True),
    ('URL', "properties.extras.URL('doc', remove_parameters=pick(True, False))", False),
    ('Array', "Array('doc', coerce=pick(True, False))", False),
    ('Array-shapes', "Array('doc', shape=pick(None, {('*', 3), (2,)}), dtype=(float, int, bool))", False),
    ('Vector3', "Vector3('doc', coerce=pick(True, False))", False),
    ('Vector2', "Vector2('doc', coerce=pick(True, False))", False),
    ('Vector3-length', "Vector3('doc', length=2.0)", False),
    ('Vector2-length', "Vector2('doc', length=2.0)", False),
    ('Vector3Array', "Vector3Array('doc')", False),
    ('Vector2Array', "Vector2Array('doc')", False),
    ('Vector3Array-length', "Vector3Array('doc', length=2.0)", False),
    ('Vector2Array-length', "Vector2Array('doc', length=2.0)", False),
    ('Tuple', "Tuple('doc', coerce=pick(True, False))", True),
    ('List', "List('doc', Integer('d'), coerce=pick(True, False))", True),
    ('Set', "Set('doc', coerce=pick(True, False))", True),
    ('Dictionary', "Dictionary('doc', coerce=pick(True, False))", True),
    ('Dictionary-typed', "Dictionary('doc', key_prop=String('d'), value_prop=Integer('d'))", True),
    ('List-observed', "List('doc', String('d'), observe_mutations=True, coerce=pick(True, False))", True),
    ('Set-observed', "Set('doc', observe_mutations=True)", True),
    ('Dictionary-observed', "Dictionary('doc', observe_mutations=True)", True),
    ('Union', "Union('doc', [Integer('d'), String('d'), Instance('d', H)])", True),
    ('Union-nested', "Union('doc', [Union('doc', [Color('d'), Boolean('d')]), Vector3('d', length=1.0)])", True),
    ('Pointer', "properties.extras.Pointer('doc', sym('cls', type))", True),
    ('Pointer-uid', "properties.extras.Pointer('doc', properties.extras.HasUID)", True),
    ('Pointer-load', "properties.extras.Pointer('doc', properties.extras.HasUID, load=True)", True),
]


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('hostile', True)
        S.append(Scenario(name, src, **k))

    for name, make, own in TYPES:
        add('validate-' + name, DEFS + JUDGE + '''
p = %s
p.name = 'field'
x = sym('x')
judge(outcome(p.validate(inst, x)), p, %r, x)
''' % (make, own), paths=500)
    # None and undefined as values
    for name, make, own in TYPES:
        if 'cls' in make:
            continue
        add('none-' + name, DEFS + JUDGE + '''
p = %s
p.name = 'field'
x = pick(None, undefined, Plain(), Plain, 10 ** 400, b'bytes', [], {}, (), '')
r = outcome(p.validate(inst, x))
if not r.ok:
    must(isinstance(r.error, ValueError), 'a rejected value raises a ValueError')
    if %r:
        must(isinstance(r.error, ValidationError), 'a value the type rejects raises a validation error')
''' % (make, own), paths=400)
    # --- error always raises
    E = '''
class MyError(Exception):
    pass
class MyValidationError(ValidationError):
    pass
class Hard(Exception):
    def __init__(self, message):
        self.message = message
def judge(prop, inst, value):
    r = outcome(prop.error(inst, value))
    must(not r.ok, 'error always raises')
    must(type(r.error) is ValidationError, 'error raises a validation error')
    must(r.error.error_tuples[0].prop == prop.name, 'it names the property')
    must(r.error.error_tuples[0].instance is inst, 'it names the instance')
    must(r.error.error_tuples[0].reason == 'invalid', 'it gives the reason')
    r = outcome(prop.error(inst, value, error_class=MyValidationError, extra='more'))
    must(not r.ok, 'error always raises')
    must(type(r.error) is MyValidationError, 'error raises what was asked for')
    must(r.error.error_tuples[0].prop == prop.name, 'it names the property')
    must(r.error.error_tuples[0].instance is inst, 'it names the instance')
    must(mentions(r.error.error_tuples[0].message, 'more'), 'the extra explanation is part of the message')
    r = outcome(prop.error(inst, value, MyError))
    must(not r.ok, 'error always raises')
    must(type(r.error) is MyError, 'error raises what was asked for')
    r = outcome(prop.error(inst, value, error_class=Hard))
    must(not r.ok, 'error always raises')
    must(type(r.error) is Hard, 'error raises what was asked for')
class H(HasProperties):
    pass
'''
    PROPS = [m for n, m, o in TYPES if 'pick' not in m and 'sym(' not in m]
    PROPS += ["Property('doc')", "properties.GettableProperty('doc')", "Boolean('doc')", "Float('doc', min=0, max=1)",
              "Array('doc')", "Array('doc', shape=None)", "Vector3('doc')", "Vector2('doc')", "List('doc', H)",
              "Tuple('doc', min_length=1, max_length=2)", "Set('doc', max_length=2)", "File('doc')",
              "Renamed('other')", "StringChoice('doc', choices=['a', 'b', 'c'])",
              "List('doc', StringChoice('doc', choices=['a', 'b', 'c']), min_length=3)",
              "Property('doc')(named)", "properties.extras.URL('doc', remove_parameters=True, remove_fragment=True)"]
    for i in range(0, len(PROPS), 6):
        add('error-%d' % (i // 6), E + '''
def named(self):
    return 1
prop = pick(%s)
prop.name = pick('', 'field')
judge(prop, pick(None, H()), pick(sym('x'), 'text', [1, 2], (), None, sym('a', np.ndarray)))
''' % ', '.join(PROPS[i:i + 6]), paths=400, steps=80000)
    # --- elements
    add('elements', DEFS + JUDGE + '''
V = fn('V', ValueError, ValidationError)
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        r = V(value)
        assume(r is not None)
        return r
kind = pick('tuple', 'list', 'set', 'coerced', 'coerced-set', 'observed')
if kind == 'tuple':
    p = Tuple('doc', P('d'))
    x = pick((sym('a'), sym('b')), (sym('a'),), ())
elif kind == 'list':
    p = List('doc', P('d'))
    x = [sym('a'), sym('b')]
elif kind == 'set':
    p = Set('doc', P('d'))
    x = sym('x', set)
elif kind == 'coerced':
    p = pick(Tuple, List)('doc', P('d'), coerce=True)
    x = sym('x')
elif kind == 'coerced-set':
    p = Set('doc', P('d'), coerce=True)
    x = pick([sym('a'), sym('b')], sym('c', list), [sym('d', dict)])
else:
    p = List('doc', P('d'), observe_mutations=True, coerce=True)
    x = [sym('a')]
p.name = 'field'
r = outcome(p.validate(inst, x))
judge(r, p, True, x)
''', paths=600)
    add('dictionary-elements', DEFS + JUDGE + '''
V = fn('V', ValueError, ValidationError)
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        r = V(value)
        assume(r is not None)
        return r
p = Dictionary('doc', key_prop=P('d'), value_prop=P('d'), coerce=pick(True, False), observe_mutations=pick(True, False))
p.name = 'field'
x = pick({sym('a', str): sym('b')}, sym('x'), [(sym('a'), sym('b'))], [sym('c')])
r = outcome(p.validate(inst, x))
judge(r, p, True, x)
''', paths=600)
    add('union-elements', DEFS + JUDGE + '''
V = fn('V', ValueError, ValidationError, KeyError, TypeError, AttributeError)
W = fn('W', ValueError, ValidationError, KeyError, TypeError, AttributeError)
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        r = V(value)
        assume(r is not None)
        return r
class Q(Property):
    class_info = 'q'
    def validate(self, instance, value):
        r = W(value)
        assume(r is not None)
        return r
p = Union('doc', [P('d'), Q('d')])
p.name = 'field'
x = sym('x')
r = outcome(p.validate(inst, x))
judge(r, p, True, x)
''', paths=600)
    add('instance-construction', DEFS + JUDGE + '''
make = fn('make', ValueError, ValidationError, KeyError, TypeError, AttributeError)
class K(object):
    def __init__(self, *args, **kwargs):
        make(args, kwargs)
p = pick(Instance, properties.extras.Pointer)('doc', K)
p.name = 'field'
x = pick(sym('x'), sym('d', dict), {'a': 1})
r = outcome(p.validate(inst, x))
judge(r, p, True, x)
''', paths=600)
    add('pointer-hooks', DEFS + JUDGE + '''
check = fn('check', ValidationError)
make = fn('make', ValidationError)
class K(H):
    uid = StringChoice('doc', choices=['a', 'b'])
    @classmethod
    def validate_uid(cls, uid):
        check(uid)
    @classmethod
    def load(cls, uid):
        return make(uid)
p = properties.extras.Pointer('doc', K, load=pick(True, False))
p.name = 'field'
x = pick(sym('x', str), sym('y'))
r = outcome(p.validate(inst, x))
judge(r, p, True, x)
''', paths=600)
    return S
