"""Keywords of property types: checked before they take effect, read back as set."""
from engine.explore import Scenario

HEAD = '''
import properties.extras
import datetime
class H(HasProperties):
    n = Integer('n')
class H2(HasProperties):
    m = Integer('m')
class Plain(object):
    pass
class Searcher(object):
    def search(self, text):
        return self
MEMBERS = [String('s'), Integer('i')]
class NoSearch(object):
    search = 5
def read(p, keys):
    out = []
    for k in keys:
        out.append(getattr(p, k))
    return out
def alike(a, b):
    if same(a, b):
        return True
    if isinstance(a, (tuple, list, dict, set, str)) and type(a) == type(b):
        return a == b
    return False
def unchanged(p, keys, before, skip=None):
    for k, b in zip(keys, before):
        if k != skip and not (k == skip):
            if k == 'prop' or k == 'key_prop' or k == 'value_prop':
                continue
            if not alike(getattr(p, k), b):
                return False
    return True
def refused(r):
    return (not r.ok) and isinstance(r.error, (TypeError, ValueError, AttributeError, KeyError))
def ident(x):
    return x
def ident_kw(x, **kwargs):
    return x
'''

BOOLS = dict(good=['True', 'False'], bad=['1', '0', "'yes'", 'None', '[]', 'H', '2.0'])
STRS = dict(good=["'abc'", "''"], bad=['5', 'None', "['a']", 'H', "b'x'"])
COMMON = {
    'doc': STRS,
    'serializer': dict(good=['ident', 'ident_kw'], back='callable(got) and got(5) == 5 and got(5, a=1) == 5', bad=['5', "'name'", '[ident]']),
    'deserializer': dict(good=['ident', 'ident_kw'], back='callable(got) and got(5) == 5 and got(5, a=1) == 5', bad=['5', "'name'", '[ident]']),
}
NAMED = {'name': STRS}
REQ = {'required': BOOLS}
LENGTH = dict(good=['0', '2', '7'], bad=['-1', '2.0', "'2'", 'None', '[2]'])
CONTAINER = {'min_length': LENGTH, 'max_length': LENGTH, 'coerce': BOOLS,
             'prop': dict(good=["String('s')", "List('l', Integer('i'))", "Union('u', [String('s'), Integer('i')])"],
                          back='got is value', bad=['5', 'H()', 'String', "GettableProperty('g')", 'Plain', "'n'", 'None', '[H]'])}
MUT = {'observe_mutations': BOOLS}
SHAPES = dict(good=["(3,)", "('*', 2)", "{(3,), ('*', 3)}", '()'], back='got == (value if isinstance(value, set) else {value})',
              bad=['3', '[3]', "'*'", "(2.5,)", "('3',)", "{(3,), 3}", "('*', None)", "{('*',), ('x',)}", '((3,),)'])

# type name -> (positional/other arguments needed, keywords)
TYPES = {
    'GettableProperty': ('', {'default': dict(good=['5', "'x'"], bad=[])}),
    'Property': ('', dict(REQ, default=dict(good=['5', "'x'", '(1, 2)'], bad=[]))),
    'Boolean': ('', dict(REQ, cast=BOOLS, default=dict(good=['True', 'False'], bad=['5', "'yes'", '[]', 'lambda: 5']))),
    'Integer': ('', dict(REQ, cast=BOOLS, default=dict(good=['5', '0', 'ten'], bad=["'x'", '2.5', 'lambda: "x"', '[]']),
                         min=dict(good=['0', '-3', '2.5'], bad=[]), max=dict(good=['0', '3', '2.5'], bad=[]))),
    'Float': ('', dict(REQ, cast=BOOLS, default=dict(good=['5.5', '0.0', 'ten'], bad=["'x'", 'lambda: "x"', '[]']),
                       min=dict(good=['0', '-3.5'], bad=[]), max=dict(good=['0', '3.5'], bad=[]))),
    'Complex': ('', dict(REQ, cast=BOOLS, default=dict(good=['5j'], bad=["'x'", '[]']))),
    'String': ('', dict(REQ, strip=dict(good=["' '", "''", "'ab'"], bad=['5', 'None', 'True', "['a']"]),
                        change_case=dict(good=["'upper'", "'lower'", 'None'], bad=["'Upper'", "'title'", 'True', '5', "''", "['upper']", "('upper',)"]),
                        unicode=BOOLS,
                        regex=dict(good=['Searcher()'], bad=['5', 'None', 'NoSearch()', 'Plain()', '[]', 'ident']),
                        default=dict(good=["'a'", "''", "lambda: 'a'"], bad=['5', 'lambda: 5', '[]']))),
    'StringChoice': ("choices=['a', 'B', 'c d']", dict(
        REQ, case_sensitive=BOOLS,
        choices=dict(good=["['x', 'y']", "('x', 'y')", "{'x', 'y'}"],
                     back="len(got) == 2 and list(got['x']) == [] and list(got['y']) == []",
                     bad=['5', "'xy'", 'None', '[1, 2]', "['x', 'x']", "('x', 'y', 'x')", "['x', 'X']", "{'x': 'X'}", "{'x': ['y'], 'y': []}",
                          "{'x': ['z', 'Z']}", "{'x': ['z'], 'y': ('Z',)}", "{'x': 5}", "{5: 'x'}", "{'x': [5]}", "{'x': ['a', None]}", "['x', None]"]),
        descriptions=dict(good=["{'a': 'first', 'B': 'second', 'c d': 'third'}"], back='got == value',
                          bad=["['a', 'B', 'c d']", "'abc'", 'None', "{'a': 'x', 'B': 'y'}", "{'a': 'x', 'B': 'y', 'c d': 5}",
                               "{'a': 'x', 'b': 'y', 'c d': 'z'}", "{'a': 'x', 'B': 'y', 'c d': 'z', 'e': 'w'}", "{'a': 'x', 'B': 'y', 'C D': 'z'}",
                               "{'a': 5, 'B': 'y', 'c d': 'z'}", '{}']),
        default=dict(good=["'a'", "'b'", "lambda: 'c d'"], bad=["'z'", '5', "lambda: 'z'", "['a']"]))),
    'Color': ('', dict(REQ, default=dict(good=["'red'", '(1, 2, 3)', "'#fff'"], bad=['5', '(1, 2)', "'#ggg'", "'nocolor'", '(1, 2, 300)']))),
    'DateTime': ('', dict(REQ, default=dict(good=['datetime.datetime(2000, 1, 1)'], bad=['5', '[]']))),
    'Uuid': ('', {}),
    'File': ("mode='r'", dict(
        REQ, mode=dict(good=["'r'", "'rb'", "'w+'", "'ab+'", 'None'], bad=["'x'", "'rw'", '5', "''", "'R'", "['r']"]),
        valid_modes=dict(good=["('r', 'rb')", "['w', 'r']", "{'r', 'a'}", "'r'"],
                         back="set(got) == ({value} if isinstance(value, str) else set(value)) and isinstance(got, tuple)",
                         bad=["'w'", "('w', 'rb')", "('r', 'x')", '()', '5', 'None', "('x',)", "('r', None)", "'rb'", "('r', ['w'])"]))),
    'Renamed': None,
    'Tuple': ('', dict(REQ, default=dict(good=['(1, 2)', '()'], bad=['5', "'ab'", '[1]', 'lambda: 5']), **CONTAINER)),
    'List': ('', dict(REQ, default=dict(good=['[1, 2]', '[]', 'list'], bad=['5', "'ab'", '(1,)', 'lambda: 5']), **dict(CONTAINER, **MUT))),
    'Set': ('', dict(REQ, default=dict(good=['{1, 2}', 'set'], bad=['5', "'ab'", '[1]', 'lambda: 5']), **dict(CONTAINER, **MUT))),
    'Dictionary': ('', dict(REQ, default=dict(good=["{'a': 1}", 'dict'], bad=['5', "'ab'", '[1]', 'lambda: 5']), coerce=BOOLS,
                            key_prop=CONTAINER['prop'], value_prop=CONTAINER['prop'], **MUT)),
    'Instance': ('instance_class=H', dict(
        REQ, instance_class=dict(good=['H2', 'Plain', 'int'], bad=['5', 'H()', "'H'", 'None', '[H]', 'ident']), auto_create=BOOLS,
        default=dict(good=['H()', 'H', "{'n': 5}"], bad=["'x'", '5', 'H2()', "{'n': 'x'}", "{'q': 1}", 'Plain', '[]']))),
    'Union': ('props=MEMBERS', dict(
        REQ, props=dict(good=["[Integer('i'), String('s')]", "(Float('f'),)"], back='len(got) == len(value) and all([g is v for g, v in zip(got, value)])',
                        bad=["String('s')", "{String('s')}", '[5]', "[String('s'), Plain]", "[String('s'), GettableProperty('g')]", 'H',
                             "[String('s'), None]", 'None', "'n'", "(Integer('i'), String)"]),
        strict_instances=BOOLS, default=dict(good=["'a'", '5', "lambda: 'a'"], bad=['[]', 'H()', 'lambda: []', '2.5']))),
    'Array': ('', dict(REQ, shape=dict(SHAPES, good=SHAPES['good'] + ['None'],
                                       back='(got is None) if value is None else got == (value if isinstance(value, set) else {value})'),
                       dtype=dict(good=['int', '(int, float)', '[bool]', '(float,)', 'complex'],
                                  back='list(got) == (list(value) if isinstance(value, (tuple, list)) else [value])',
                                  bad=['()', '[]', 'str', "'int'", '(int, str)', 'None', '5', '[int, None]', 'Plain', '(int, 5.0)']),
                       coerce=BOOLS)),
    'Vector3': ('', dict(REQ, length=dict(good=['1', '2.5', '10'], back='got == value and isinstance(got, float)',
                                          bad=['0', '-1', '0.0', '-2.5', "'1'", 'None', '[1]', '(1,)']))),
    'Vector2': ('', dict(REQ, length=dict(good=['1', '2.5', '10'], back='got == value and isinstance(got, float)',
                                          bad=['0', '-1', '0.0', '-2.5', "'1'", 'None', '[1]', '(1,)']))),
    'Vector3Array': ('', dict(REQ, shape=dict(good=["('*', 3)", '(5, 3)', "{(2, 3), (4, 3)}"], back='got == (value if isinstance(value, set) else {value})',
                                              bad=["(3,)", "('*', 2)", "('*', 3, 3)", '3', 'None', "{('*', 3), ('*', 2)}", "('*', '*')", "(2.5, 3)", "(3, '*')"]),
                              length=dict(good=['1', '2.5'], back='got == value and isinstance(got, float)', bad=['0', '-1', "'1'", 'None', '[1]']))),
    'Vector2Array': ('', dict(REQ, shape=dict(good=["('*', 2)", '(5, 2)', "{(2, 2), (4, 2)}"], back='got == (value if isinstance(value, set) else {value})',
                                              bad=["(2,)", "('*', 3)", "('*', 2, 2)", '2', 'None', "{('*', 2), ('*', 3)}", "('*', '*')", "(2.5, 2)", "(2, '*')"]),
                              length=dict(good=['1', '2.5'], back='got == value and isinstance(got, float)', bad=['0', '-1', "'1'", 'None', '[1]']))),
    'ImagePNG': ('', dict(REQ, filename=STRS)),
    'Pointer': ('instance_class=UidH', dict(REQ, load=dict(good=['True', 'False'], bad=[]),
                                            uid_prop=dict(good=["'other'", "'uid'"], bad=[]),
                                            instance_class=dict(good=['UidH'], bad=['5', 'UidH()', "'UidH'", 'None']))),
    'URL': ('', dict(REQ, remove_parameters=dict(good=['True', 'False'], bad=[]), remove_fragment=dict(good=['True', 'False'], bad=[]),
                     strip=dict(good=["' '"], bad=['5', 'None']), change_case=dict(good=["'lower'"], bad=["'x'"]))),
}
SYMBOLIC = {'required': 'isinstance(value, bool)', 'cast': 'isinstance(value, bool)', 'unicode': 'isinstance(value, bool)',
            'case_sensitive': 'isinstance(value, bool)', 'coerce': 'isinstance(value, bool)', 'observe_mutations': 'isinstance(value, bool)',
            'auto_create': 'isinstance(value, bool)', 'strict_instances': 'isinstance(value, bool)', 'warn': 'isinstance(value, bool)',
            'doc': 'isinstance(value, str)', 'name': 'isinstance(value, str)', 'strip': 'isinstance(value, str)',
            'filename': 'isinstance(value, str)', 'new_name': 'isinstance(value, str)',
            'min_length': 'isinstance(value, int) and value >= 0', 'max_length': 'isinstance(value, int) and value >= 0',
            'instance_class': 'isinstance(value, type)',
            'prop': 'isinstance(value, Property) or (isinstance(value, type) and issubclass(value, HasProperties))'}


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 400)
        S.append(Scenario(name, HEAD + src, **k))

    uid = '''
class UidH(properties.extras.HasUID):
    n = Integer('n')
    other = String('o')
'''
    prefix = {'Pointer': 'properties.extras.Pointer', 'URL': 'properties.extras.URL'}
    for ty in sorted(TYPES):
        if TYPES[ty] is None:
            continue
        extra, own = TYPES[ty]
        kws = dict(COMMON, **NAMED)
        kws.update(own)
        cls = prefix.get(ty, 'properties.' + ty)
        table, keys = [], sorted(k for k in kws if k != 'default') + (['default'] if 'default' in kws and ty not in ('Instance', 'Union') else [])
        for k in sorted(kws):
            spec = kws[k]
            back = spec.get('back', 'same(got, value) or got == value')
            back = back if 'back' in spec else ('same(got, value)' if k == 'default' else back)
            table.append('''
    if key == %r:
        good = [%s]
        bad = [%s]
        back = lambda got, value: %s''' % (k, ', '.join(spec['good']), ', '.join(spec['bad']), back))
        uid_head = uid if ty == 'Pointer' else ''
        head = uid_head + '''
ten = lambda: 10
ALL = %r
def make(**kwargs):
    options = dict(%s)
    options.update(kwargs)
    return %s('a doc', **options)
def table(key):
%s
    return good, bad, back
''' % (keys, extra, cls, ''.join(table))
        half = sorted(kws)
        for part in range(0, len(half), 2):
            some = half[part:part + 2]
            add('%s-%d' % (ty, part // 2), head + '''
key = pick(%s)
good, bad, back = table(key)
half = pick(True, False)
# accepted values, by either route
def accept(value):
    p = make()
    before = read(p, ALL)
    caller(value)
    n = now()
    r = outcome(setattr(p, key, value))
    must(r.ok, 'a proper value is accepted')
    must(back(getattr(p, key), value), 'what was configured is read back')
    must(unchanged(p, ALL, before, key) or key in %r, 'setting a keyword leaves the others alone')
    untouched(value, since=n)
    if key != 'doc':
        r = outcome(make(**{key: value}))
        must(r.ok, 'a proper value is accepted at construction')
        must(back(getattr(r.value, key), value), 'what was configured at construction is read back')
        must(unchanged(r.value, ALL, before, key) or key in %r, 'a keyword leaves the others alone')
        untouched(value, since=n)
    return p
def reject(p, value):
    before = read(p, ALL + [key])
    caller(value)
    n = now()
    r = outcome(setattr(p, key, value))
    must(refused(r), 'an improper value is refused')
    must(unchanged(p, ALL + [key], before), 'a refused value leaves the configuration in force')
    untouched(value, since=n)
    if key != 'doc' and not (key in ('default', 'prop') and value is None):
        r = outcome(make(**{key: value}))
        must(refused(r), 'an improper value is refused at construction')
for value in good if half else []:
    accept(value)
for value in bad if half else []:
    reject(make(), value)
if good and not half:
    for value in bad:
        p = make()
        setattr(p, key, good[0])
        reject(p, value)
for value in good if not half else []:
    for other in good:
        p = make()
        setattr(p, key, value)
        setattr(p, key, other)
        must(back(getattr(p, key), other), 'what was configured last is read back')
''' % (', '.join(map(repr, some)), ALSO.get(ty, ()), ALSO.get(ty, ())))
        syms = [k for k in half if k in SYMBOLIC and not (k == 'instance_class' and ty == 'Pointer')]
        for part in range(0, len(syms), 3):
            some = syms[part:part + 3]
            add('%s-any-%d' % (ty, part // 3), head + '''
key = pick(%s)
value = sym('value')
p = make()
before = read(p, ALL + [key])
caller(value)
r = outcome(setattr(p, key, value))
if key == 'name':
    proper = isinstance(value, str)
%s
must(r.ok == bool(proper), 'exactly the proper values are accepted')
if r.ok:
    if key not in ('prop', 'key_prop', 'value_prop'):
        must(same(getattr(p, key), value), 'what was configured is read back')
else:
    must(refused(r), 'an improper value is refused')
    must(unchanged(p, ALL + [key], before), 'a refused value leaves the configuration in force')
must(unchanged(p, ALL, before, key) or key in %r, 'setting a keyword leaves the others alone')
''' % (', '.join(map(repr, some)), '\n'.join('if key == %r:\n    proper = %s' % (k, SYMBOLIC[k]) for k in some), ALSO.get(ty, ())), K=1)
            add('%s-made-%d' % (ty, part // 3), head + '''
key = pick(%s)
value = sym('value')
caller(value)
if key == 'prop':
    assume(value is not None)
r = outcome(make(**{key: value}))
if key == 'name':
    proper = isinstance(value, str)
%s
must(r.ok == bool(proper), 'exactly the proper values are accepted at construction')
if r.ok:
    if key not in ('prop', 'key_prop', 'value_prop'):
        must(same(getattr(r.value, key), value), 'what was configured at construction is read back')
else:
    must(refused(r), 'an improper value is refused at construction')
''' % (', '.join(repr(k) for k in some if k != 'doc') or "'name'",
       '\n'.join('if key == %r:\n    proper = %s' % (k, SYMBOLIC[k]) for k in some)), K=1)
        add('%s-unknown' % ty, head + '''
word = pick('nothing', '_doc', '_name', '_kwargs', '_default', 'terms', 'info', 'meta', '__class__', 'Default', 'defaults', '_class_default', 'class_default', 'names', 'args', 'class__info')
value = sym('value')
r = outcome(make(**{word: value}))
must(not r.ok and isinstance(r.error, AttributeError), 'unknown, private and read-only keywords are refused at construction')
key = pick(%s)
r = outcome(make(**{key: table(key)[0][0], word: value}))
must(not r.ok and isinstance(r.error, AttributeError), 'unknown, private and read-only keywords are refused at construction')
r = outcome(make(**{word: value, key: table(key)[0][0]}))
must(not r.ok and isinstance(r.error, AttributeError), 'unknown, private and read-only keywords are refused at construction')
''' % ', '.join(repr(k) for k in half if k != 'doc'), paths=900)

    # pairs of keywords which must agree
    for ty, low, high, start in (('Integer', 'min', 'max', ''), ('Float', 'min', 'max', ''), ('Tuple', 'min_length', 'max_length', ''),
                                 ('List', 'min_length', 'max_length', ''), ('Set', 'min_length', 'max_length', '')):
        add('%s-order' % ty, """
def make(**kwargs):
    return %s('d', **kwargs)
a, b = sym('a'), sym('b')
assume(isinstance(a, int) and isinstance(b, int) and a >= 0 and b >= 0)
which = pick('both', 'both-reversed', 'low first', 'high first')
if which == 'both':
    r = outcome(make(%s=a, %s=b))
elif which == 'both-reversed':
    r = outcome(make(%s=b, %s=a))
    a, b = b, a
    r2 = outcome(make(**{%r: b, %r: a}))
    must(r2.ok == r.ok, 'the order of keywords does not matter')
    must(r.ok == (a <= b), 'a minimum above the maximum is refused') if r.ok else None
    a, b = a, b
if which in ('both', 'both-reversed'):
    must(r.ok == (not b < a), 'exactly a minimum above the maximum is refused')
    if not r.ok:
        must(isinstance(r.error, TypeError), 'a minimum above the maximum is refused')
    else:
        must(same(r.value.%s, a) and same(r.value.%s, b), 'what was configured is read back')
""".replace("""    a, b = b, a
    r2 = outcome(make(**{%r: b, %r: a}))
    must(r2.ok == r.ok, 'the order of keywords does not matter')
    must(r.ok == (a <= b), 'a minimum above the maximum is refused') if r.ok else None
    a, b = a, b
""", "    a, b = a, b\n").replace("""    r = outcome(make(%s=b, %s=a))
""", """    r = outcome(make(%s=b, %s=a))
""") % (ty, low, high, high, low, low, high) + """
p = None
if which == 'low first':
    p = make(%s=a)
    r = outcome(setattr(p, %r, b))
    must(r.ok == (not b < a), 'exactly a minimum above the maximum is refused')
    must(same(p.%s, a), 'the other bound stays in force')
    must(same(p.%s, b) if r.ok else p.%s is None, 'a refused bound leaves the configuration in force')
if which == 'high first':
    p = make(%s=b)
    r = outcome(setattr(p, %r, a))
    must(r.ok == (not b < a), 'exactly a minimum above the maximum is refused')
    must(same(p.%s, b), 'the other bound stays in force')
    must(same(p.%s, a) if r.ok else p.%s is None, 'a refused bound leaves the configuration in force')
if p is not None and r.ok:
    c = sym('c')
    assume(isinstance(c, int) and c >= 0)
    if pick(True, False):
        r = outcome(setattr(p, %r, c))
        must(r.ok == (not b < c), 'exactly a minimum above the maximum is refused')
        must(same(p.%s, c if r.ok else a) and same(p.%s, b), 'a refused bound leaves the configuration in force')
    else:
        r = outcome(setattr(p, %r, c))
        must(r.ok == (not c < a), 'exactly a minimum above the maximum is refused')
        must(same(p.%s, c if r.ok else b) and same(p.%s, a), 'a refused bound leaves the configuration in force')
""" % (low, high, low, high, high, high, low, high, low, low, low, low, high, high, high, low))
        add('%s-history' % ty, """
def make(**kwargs):
    return %s('d', **kwargs)
p = make()
lo = hi = None
for i in range(3):
    side, v = pick((0, 0), (0, 3), (0, 7), (1, 0), (1, 3), (1, 7))
    if side == 0:
        r = outcome(setattr(p, %r, v))
        good = hi is None or v <= hi
        if good:
            lo = v
    else:
        r = outcome(setattr(p, %r, v))
        good = lo is None or lo <= v
        if good:
            hi = v
    must(r.ok == good, 'exactly a minimum above the maximum is refused')
    must(p.%s == lo and p.%s == hi, 'the bounds in force are the accepted ones')
""" % (ty, low, high, low, high), paths=800)
    # a default is checked against every other keyword, whatever their order
    for i, (call, options, good) in enumerate((
            ('Integer', "[('min', 3), ('default', 2)]", False), ('Integer', "[('min', 3), ('default', 3)]", True),
            ('Integer', "[('max', 3), ('default', lambda: 4), ('min', 1)]", False), ('Integer', "[('cast', True), ('default', '5')]", True),
            ('Integer', "[('cast', True), ('default', 2.5)]", True), ('Integer', "[('default', 2.5), ('cast', False)]", False),
            ('Float', "[('max', 3.0), ('default', 3.5)]", False), ('Float', "[('max', 3.0), ('default', 2.5)]", True),
            ('Boolean', "[('default', 5), ('cast', True)]", True), ('Boolean', "[('default', 5), ('cast', False)]", False),
            ('StringChoice', "[('default', 'A'), ('choices', ['a', 'b']), ('case_sensitive', True)]", False),
            ('StringChoice', "[('default', 'A'), ('choices', ['a', 'b'])]", True),
            ('StringChoice', "[('default', 'x'), ('choices', {'a': 'x', 'b': []})]", True),
            ('StringChoice', "[('default', 'c'), ('choices', ['a', 'b'])]", False),
            ('Tuple', "[('default', (1, 2)), ('max_length', 2)]", True),
            ('Tuple', "[('default', (1, 'a')), ('prop', Integer('i'))]", False),
            ('List', "[('default', ['a']), ('prop', Integer('i'))]", False), ('List', "[('default', lambda: ['a']), ('prop', Integer('i'))]", False),
            ('List', "[('default', 'a'), ('coerce', True)]", True),
            ('Set', "[('default', {1, 2, 3}), ('max_length', 3), ('min_length', 3)]", True),
            ('Dictionary', "[('default', {'a': 'b'}), ('value_prop', Integer('i'))]", False),
            ('Dictionary', "[('default', {'a': 1}), ('value_prop', Integer('i')), ('key_prop', String('k'))]", True),
            ('Dictionary', "[('default', {1: 1}), ('key_prop', String('k'))]", False),
            ('Instance', "[('default', H2), ('instance_class', H)]", False), ('Instance', "[('default', H), ('instance_class', H)]", True),
            ('Union', "[('default', 'a'), ('props', [Integer('i'), H])]", False), ('Union', "[('default', 5), ('props', [H, Integer('i', max=4)])]", False),
            ('Union', "[('default', 5), ('props', [H, Integer('i', max=5)])]", True),
            ('Union', "[('default', lambda: 5), ('props', [H, Integer('i', max=5)])]", True))):
        add('default-%d' % i, """
options = %s
k = pick(0, 1, 2)
if k == 1:
    options = options[::-1]
elif k == 2:
    options = options[1:] + options[:1]
kwargs = {}
for name, v in options:
    kwargs[name] = v
r = outcome(%s('d', **kwargs))
must(r.ok == %r, 'exactly the defaults the property accepts are accepted')
if r.ok:
    must(same(r.value.default, kwargs['default']), 'the default is read back')
else:
    must(refused(r), 'a default the property rejects is refused')
p = %s('d', **{n: v for n, v in options if n != 'default'})
was = p.default
r = outcome(setattr(p, 'default', kwargs['default']))
must(r.ok == %r, 'exactly the defaults the property accepts are accepted')
must(same(p.default, kwargs['default']) if r.ok else p.default is was, 'a refused default leaves the former one in force')
r = outcome(setattr(p, 'default', undefined))
must(r.ok, 'a default can be taken away')
""" % (options, call, good, call, good))
    add('default-any', """
q = []
class P(Property):
    def validate(self, instance, value):
        q.append((instance, value))
        if not ok(value):
            self.error(instance, value)
        return value
ok = fn('ok')
v = sym('v')
assume(v is not None and v is not undefined and not callable(v))
if pick(True, False):
    p = P('d', default=5)
    was = p.default
    del q[:]
    r = outcome(setattr(p, 'default', v))
    must(same(p.default, v) if r.ok else p.default == 5, 'a refused default leaves the former one in force')
else:
    del q[:]
    r = outcome(P('d', default=v))
    if r.ok:
        must(same(r.value.default, v), 'the default is read back')
must(len(q) == 1 and q[0][0] is None and same(q[0][1], v), 'a default is validated')
must(r.ok == bool(ok(v)), 'exactly the defaults the property accepts are accepted')
""".replace("was = p.default\n    ", '').replace("P('d', default=5)", "P('d')\n    p._default = 5"))
    add('default-call', """
q, made = [], []
class P(Property):
    def validate(self, instance, value):
        q.append(value)
        if value == 'bad':
            self.error(instance, value)
        return value
def f():
    made.append(1)
    return answer
answer = pick('good', 'bad')
route = pick('made', 'set')
if route == 'made':
    r = outcome(P('d', default=f))
else:
    p = P('d')
    r = outcome(setattr(p, 'default', f))
must(r.ok == (answer == 'good'), 'what a default makes is validated')
must(q == [answer], 'what a default makes is validated')
if route == 'made' and r.ok:
    p = r.value
if route == 'set' or r.ok:
    must(p.default is (f if r.ok else undefined), 'a refused default leaves the former one in force')
""")
    add('renamed', """
def make(*args, **kwargs):
    return Renamed(*args, **kwargs)
v = sym('v')
how = pick('new_name', 'made', 'warn', 'warn-made', 'doc', 'default', 'required')
if how == 'new_name':
    p = make('old')
    r = outcome(setattr(p, 'new_name', v))
    must(r.ok == isinstance(v, str), 'exactly names are accepted')
    must(same(p.new_name, v) if r.ok else p.new_name == 'old', 'a refused value leaves the configuration in force')
    must(p.warn is True, 'setting a keyword leaves the others alone')
elif how == 'made':
    r = outcome(make(v))
    must(r.ok == isinstance(v, str), 'exactly names are accepted')
elif how == 'warn':
    p = make('old')
    r = outcome(setattr(p, 'warn', v))
    must(r.ok == isinstance(v, bool), 'exactly booleans are accepted')
    must(same(p.warn, v) if r.ok else p.warn is True, 'a refused value leaves the configuration in force')
elif how == 'warn-made':
    r = outcome(make('old', warn=v))
    must(r.ok == isinstance(v, bool), 'exactly booleans are accepted')
    if r.ok:
        must(same(r.value.warn, v) and r.value.new_name == 'old', 'what was configured is read back')
elif how == 'doc':
    r = outcome(make('old', doc=v))
    must(r.ok == isinstance(v, str), 'exactly texts are accepted')
    if r.ok:
        must(same(r.value.doc, v), 'what was configured is read back')
else:
    r = outcome(make('old', **{how: v}))
    if how == 'required':
        must(not r.ok and isinstance(r.error, AttributeError), 'unknown keywords are refused at construction')
if not r.ok:
    must(refused(r), 'an improper value is refused')
""")
    add('dynamic', """
DynamicProperty = properties.basic.DynamicProperty
def two(self, value):
    return 5
def none():
    return 5
def getter(self):
    return 5
def other(self):
    return 6
getter.__name__ = 'getter'
p = Integer('i')
d = DynamicProperty('d', getter, p)
must(d.func is getter and d.prop is p, 'what was configured is read back')
how = pick('func', 'prop', 'name', 'made-func', 'made-prop', 'made-more', 'setter', 'deleter')
if how == 'made-more':
    q = DynamicProperty('d', getter, p, name='other')
    must(q.name == 'other' and p.name == 'other', 'what was configured is read back')
    r = outcome(DynamicProperty('d', getter, p, **{pick('nothing', '_doc', 'terms', 'info'): 5}))
    must(not r.ok, 'unknown, private and read-only keywords are refused at construction')
    r = outcome(DynamicProperty(5, getter, p))
    must(not r.ok, 'the documentation is text')
elif how == 'func':
    v = pick(5, two, none, 'getter', None, other)
    r = outcome(setattr(d, 'func', v))
    must(r.ok == (v is other), 'exactly functions of one argument are accepted')
    must(d.func is (other if r.ok else getter), 'a refused value leaves the configuration in force')
elif how == 'prop':
    v = pick(5, Integer, Integer('j', default=5), None, String('s'), H, String('t', default=lambda: 'a'))
    r = outcome(setattr(d, 'prop', v))
    must(r.ok == (isinstance(v, String)  and v.default is undefined), 'exactly properties without default are accepted')
    must(d.prop is (v if r.ok else p), 'a refused value leaves the configuration in force')
elif how == 'name':
    v = sym('v')
    r = outcome(setattr(d, 'name', v))
    must(r.ok == isinstance(v, str), 'exactly texts are accepted')
    must(same(d.name, v) and same(d.prop.name, v) if r.ok else d.name == 'getter' and p.name == 'getter', 'a refused value leaves the configuration in force')
elif how == 'made-func':
    v = pick(5, two, none, 'getter', None)
    r = outcome(DynamicProperty('d', v, p))
    must(not r.ok, 'exactly functions of one argument are accepted')
elif how == 'made-prop':
    v = pick(5, Integer, Integer('j', default=5), None, H)
    r = outcome(DynamicProperty('d', getter, v))
    must(not r.ok, 'exactly properties without default are accepted')
else:
    one = lambda self: 5
    v = pick(5, None, 'x', one, two, other, none)
    if callable(v) and pick(True, False):
        v.__name__ = 'named'
    d.name = 'named'
    r = outcome(getattr(d, how)(v))
    want = [two] if how == 'setter' else [one, other]
    must(r.ok == (callable(v) and any([v is w for w in want]) and v.__name__ == 'named'), 'exactly functions of the right form and name are accepted')
    must(d.set_func is (v if r.ok and how == 'setter' else None), 'a refused function is not taken over')
    must(d.del_func is (v if r.ok and how == 'deleter' else None), 'a refused function is not taken over')
    if r.ok:
        must(r.value is d, 'the property is returned')
if not r.ok:
    must(refused(r), 'an improper value is refused')
""")
    add('tags', """
p = Integer('i')
extra = {'unit': 'm', 'x': 1}
caller(extra)
n = now()
how = pick('dict', 'kw', 'both', 'bad', 'two', 'bad-kw')
before = read(p, ['doc', 'min', 'max', 'required', 'default'])
if how == 'dict':
    must(p.tag(extra) is p, 'the property is returned')
    must(p.meta == {'unit': 'm', 'x': 1}, 'what was tagged is read back')
elif how == 'kw':
    must(p.tag(a=1, b=2) is p, 'the property is returned')
    must(p.meta == {'a': 1, 'b': 2}, 'what was tagged is read back')
elif how == 'both':
    p.tag(extra, x=2, y=3)
    must(p.meta == {'unit': 'm', 'x': 2, 'y': 3}, 'what was tagged is read back')
elif how == 'bad':
    x = sym('x')
    assume(not isinstance(x, dict))
    p.tag(a=1)
    r = outcome(p.tag(x))
    must(not r.ok and isinstance(r.error, TypeError), 'tags are dictionaries')
    must(p.meta == {'a': 1}, 'a refused tag changes nothing')
elif how == 'two':
    r = outcome(p.tag(extra, {'y': 1}))
    must(not r.ok and isinstance(r.error, TypeError), 'tags are dictionaries')
    must(p.meta == {}, 'a refused tag changes nothing')
else:
    r = outcome(p.tag(5, a=1))
    must(not r.ok and isinstance(r.error, TypeError), 'tags are dictionaries')
    must(p.meta == {}, 'a refused tag changes nothing')
untouched(extra, since=n)
must(unchanged(p, ['doc', 'min', 'max', 'required', 'default'], before), 'tagging leaves the keywords alone')
must(p.meta is not extra and Integer('j').meta == {}, 'tags belong to one property')
""")
    add('observer', """
Observer = properties.handlers.Observer
MODES = ('validate', 'observe_set', 'observe_change')
o = Observer(['a'], 'observe_set')
must(o.names == ('a',) and o.mode == 'observe_set', 'what was configured is read back')
how = pick('names', 'mode', 'any-name', 'any-mode')
if how == 'names':
    for v in ('b', ['b'], ('b', 'c'), {'b'}, properties.everything, [], ()):
        o.names = v
        want = v if v is properties.everything else (v,) if isinstance(v, str) else tuple(v)
        must(o.names is want or o.names == want, 'what was configured is read back')
        if want is not v:
            must(isinstance(o.names, tuple), 'names are kept as a tuple')
    for v in (5, [5], ['a', 5], None, ('a', None), {5}, {'a': 'b'}, ['a', properties.everything]):
        o.names = 'x'
        r = outcome(setattr(o, 'names', v))
        must(not r.ok and isinstance(r.error, TypeError), 'names are texts')
        must(o.names == ('x',) and o.mode == 'observe_set', 'refused names leave the configuration in force')
        r = outcome(Observer(v, 'validate'))
        must(not r.ok, 'names are texts')
    given = ['a', 'b']
    o.names = given
    given.append(5)
    must(o.names == ('a', 'b'), 'what was configured is read back')
elif how == 'mode':
    for v in MODES:
        o.mode = v
        must(o.mode == v and o.names == ('a',), 'what was configured is read back')
    o.mode = 'validate'
    for v in ('observe', '', 5, None, 'Validate', ('validate',), True):
        r = outcome(setattr(o, 'mode', v))
        must(not r.ok and isinstance(r.error, TypeError), 'only the three modes are accepted')
        must(o.mode == 'validate', 'a refused mode leaves the configuration in force')
        r = outcome(Observer('a', v))
        must(not r.ok and isinstance(r.error, TypeError), 'only the three modes are accepted')
elif how == 'any-name':
    v = sym('v')
    assume(not isinstance(v, (list, tuple, set)) and v is not properties.everything)
    r = outcome(setattr(o, 'names', v))
    must(r.ok == isinstance(v, str), 'names are texts')
    must(same(o.names[0], v) if r.ok else o.names == ('a',), 'refused names leave the configuration in force')
else:
    v = sym('v', str)
    r = outcome(setattr(o, 'mode', v))
    must(r.ok == any([v == m for m in MODES]), 'only the three modes are accepted')
    must(o.mode == v if r.ok else o.mode == 'observe_set', 'a refused mode leaves the configuration in force')
""")
    add('terms', """
p = Integer('i', min=3)
q = String(doc='s')
must(p.terms.args == ('i',) and p.terms.kwargs == {'min': 3} and p.terms.cls is Integer, 'the terms are those of construction')
must(q.terms.args == () and q.terms.kwargs == {'doc': 's'} and q.terms.cls is String, 'the terms are those of construction')
must(p.terms.meta is p.meta and p.terms.name == p.name, 'the terms name the property')
v = pick(5, None, (), {}, {'args': ()}, {'kwargs': {}}, {'args': [], 'kwargs': {}}, {'args': (), 'kwargs': ()}, {'args': (), 'kwargs': {}, 'x': 1},
         {'args': (), 'kwarg': {}}, {'arg': (), 'kwargs': {}}, [(), {}], {'args': (), 'kwargs': None})
r = outcome(setattr(p, 'terms', v))
must(not r.ok and isinstance(r.error, TypeError), 'improper terms are refused')
must(p.terms.args == ('i',) and p.terms.kwargs == {'min': 3}, 'refused terms leave the former ones in force')
p.terms = {'args': ('j',), 'kwargs': {'max': 5}}
must(p.terms.args == ('j',) and p.terms.kwargs == {'max': 5}, 'what was configured is read back')
""")
    add('interplay', """
how = pick('choices-case', 'choices-sensitive', 'modes', 'copy', 'name', 'descriptions')
if how == 'choices-case':
    r = outcome(StringChoice('d', ['a', 'A']))
    must(not r.ok, 'duplicate choices are refused')
    r = outcome(StringChoice('d', {'a': ['x'], 'b': ['X']}))
    must(not r.ok, 'duplicate choices are refused')
    r = outcome(StringChoice('d', ['a', 'A'], case_sensitive=False))
    must(not r.ok, 'duplicate choices are refused')
elif how == 'choices-sensitive':
    p = StringChoice('d', case_sensitive=True, choices=['a', 'A'])
    must(list(p.choices) == ['a', 'A'] and p.case_sensitive is True, 'what was configured is read back')
    r = outcome(setattr(p, 'choices', {'a': ['b'], 'c': ['b']}))
    must(not r.ok and list(p.choices) == ['a', 'A'], 'duplicate choices are refused')
elif how == 'modes':
    p = File('d', 'rb')
    must(p.mode == 'rb' and p.valid_modes == ('rb',), 'what was configured is read back')
    p = File('d')
    must(p.mode is None and p.valid_modes is None, 'what was configured is read back')
    r = outcome(File('d', valid_modes=('r',)))
    must(not r.ok, 'the mode must be one of the valid modes')
    p = File('d', valid_modes=('r', 'w'), mode='w')
    must(p.mode == 'w' and p.valid_modes == ('r', 'w'), 'what was configured is read back')
    r = outcome(setattr(p, 'valid_modes', ('r',)))
    must(not r.ok and p.valid_modes == ('r', 'w'), 'the mode must be one of the valid modes')
elif how == 'copy':
    given = {'a': ['x'], 'b': ['y']}
    p = StringChoice('d', given)
    given['a'].append('z')
    given['c'] = []
    must(dict(p.choices) == {'a': ['x'], 'b': ['y']}, 'what was configured is read back')
    members = [Integer('i'), String('s')]
    u = Union('d', members)
    members.append(H)
    must(len(u.props) == 2, 'what was configured is read back')
    modes = ['r', 'w']
    f = File('d', 'r', valid_modes=modes)
    modes.append('x')
    must(f.valid_modes == ('r', 'w'), 'what was configured is read back')
elif how == 'name':
    a, b = Integer('a'), Integer('b')
    for p, inner in ((List('l', a), [a]), (Dictionary('d', key_prop=a, value_prop=b), [a, b]), (Union('u', [a, b]), [a, b]), (Tuple('t', a), [a])):
        p.name = 'first'
        must(p.name == 'first' and all([q.name == 'first' for q in inner]), 'members take the name over')
        r = outcome(setattr(p, 'name', 5))
        must(not r.ok and p.name == 'first' and all([q.name == 'first' for q in inner]), 'a refused name leaves the names in force')
else:
    p = StringChoice('d', ['a', 'b'], descriptions={'a': 'first', 'b': 'second'})
    must(p.descriptions == {'a': 'first', 'b': 'second'}, 'what was configured is read back')
    must('first' in p.info and 'second' in p.info, 'descriptions are shown')
    r = outcome(StringChoice('d', ['a', 'b'], descriptions={'a': 'first'}))
    must(not r.ok, 'descriptions name every choice')
    r = outcome(StringChoice(descriptions={'a': 'first', 'c': 'x'}, choices=['a', 'b'], doc='d'))
    must(not r.ok, 'descriptions name every choice')
""")
    add('union-default', """
# a default is accepted when any member accepts it, in whatever way the others reject it
kind = pick('ValueError', 'KeyError', 'TypeError', 'AttributeError', 'Validation')
err = {'ValueError': ValueError, 'KeyError': KeyError, 'TypeError': TypeError, 'AttributeError': AttributeError,
       'Validation': properties.ValidationError}[kind]
class Refuses(Property):
    class_info = 'r'
    def validate(self, instance, value):
        raise err('no')
class Accepts(Property):
    class_info = 'a'
other = pick('accepts', 'refuses')
u = Union('u', [Refuses('r'), Accepts('p') if other == 'accepts' else Refuses('s')])
v = sym('v')
assume(not callable(v))
assume(v is not undefined)
r = outcome(setattr(u, 'default', v))
must(r.ok == (other == 'accepts'), 'a default some member accepts is a default')
if r.ok:
    must(u.default is v, 'the default is what was given')
else:
    must(u.default is undefined, 'a refused default changes nothing')
    must(isinstance(r.error, (TypeError, ValueError)), 'a refused default is an error')
""")
    return S


# keywords another one is derived from
ALSO = {'File': ('mode', 'valid_modes'), 'Instance': ('auto_create', 'instance_class'), 'Union': ('props',)}
