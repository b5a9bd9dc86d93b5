"""Accepted scalars satisfy their declared constraints, and nothing else is rejected."""
from engine.explore import Scenario

DEFS = '''
class H(HasProperties):
    pass
inst = pick(None, H())
TOL = properties.basic.TOL
'''


def scenarios():
    S = []

    def add(name, src, **k):
        S.append(Scenario(name, DEFS + src, **k))

    # ------------------------------------------------------------- boolean
    add('boolean', '''
cast = pick(None, True, False)
kw = {} if cast is None else {'cast': cast}
p = Boolean('doc', **kw)
x = pick(sym('x'), True, False, 0, 1, 'yes', '', None, [], [0])
r = outcome(p.validate(inst, x))
if cast:
    must(r.ok, 'with casting every value has a truth value')
    must(r.value is True or r.value is False, 'a boolean is stored')
    must(r.value is bool(x), 'casting takes the truth value')
else:
    isbool = x is True or x is False or isinstance(x, (bool, ext_name('numpy.bool_')))
    must(r.ok == isbool, 'exactly booleans are accepted')
    if r.ok:
        must(r.value is x, 'a boolean is kept')
''', paths=600)

    # ------------------------------------------------------------- numbers
    for kind, num, conv in (('Integer', 'int', 'int'), ('Float', 'float', 'float')):
        body = '''
cast, which = pick(True, False), pick('none', 'min', 'max', 'both', 'later')
mn, mx = sym('mn', %s), sym('mx', %s)
assume(not (mx < mn))
kw = {'cast': cast}
if which in ('min', 'both'):
    kw['min'] = mn
if which in ('max', 'both'):
    kw['max'] = mx
p = %s('doc', **kw)
if which == 'later':
    p.max = mx
    p.min = mn
''' % (num, num, kind)
        add(kind + '-value', body + '''
x = pick(sym('x'), sym('i', int), sym('f', float), sym('s', str))
if isinstance(x, str):
    assume(cast)
r = outcome(p.validate(inst, x))
v = %s(x)
close = cast or abs(x - v) <= TOL
low = which in ('min', 'both', 'later') and v < mn
high = which in ('max', 'both', 'later') and v > mx
if r.ok:
    must(isinstance(r.value, %s), 'an accepted number has the declared type')
    must(r.value == v, 'the value is the converted input')
    must(close, 'without casting, conversion stays within tolerance')
    must(not low, 'the minimum is enforced, inclusively')
    must(not high, 'the maximum is enforced, inclusively')
else:
    must(isinstance(r.error, ValidationError), 'a value out of range is a validation error')
    must(not close or low or high, 'a value meeting the constraints is not rejected')
''' % (conv, num), paths=800)
        add(kind + '-hostile', body.replace("'none', 'min', 'max', 'both', 'later'", "'none'") + '''
TEXT = sym('s', str)
x, istext = pick((sym('x'), False), (sym('f', float), False), (TEXT, True), (sym('l', list), False), (sym('d', dict), False),
    (sym('c', complex), False), (None, False))
r = outcome(p.validate(inst, x))
if r.ok:
    must(isinstance(r.value, %s), 'an accepted number has the declared type')
    must(same(r.value, %s(x)), 'the value is the converted input')
    must(cast or not istext, 'text is no number unless cast')
''' % (num, conv), hostile=True, paths=400)
        add(kind + '-concrete', '''
x = pick(0, 1, -1, 255, 1.0, 1.25, -0.5, 1e-12, 3.0000000000001, True, 10 ** 30)
cast, which = pick(True, False), pick(0, 1, 2, 3)
mn, mx = pick((0, 1), (-1, 255), (1, 1), (-0.5, 1.25))
kw = {'cast': cast}
if which & 1:
    kw['min'] = mn
if which & 2:
    kw['max'] = mx
p = %s('doc', **kw)
r = outcome(p.validate(inst, x))
v = %s(x)
fits = (cast or abs(x - v) <= TOL) and not ('min' in kw and v < mn) and not ('max' in kw and v > mx)
must(r.ok == fits, 'exactly the values meeting the constraints are accepted')
if r.ok:
    must(r.value == v and type(r.value) is %s, 'the value is the converted input')
''' % (kind, conv, num), paths=1500, wall=60)
    add('complex', '''
cast = pick(None, True, False)
kw = {} if cast is None else {'cast': cast}
p = Complex('doc', **kw)
x = pick(sym('x'), sym('i', int), sym('f', float), sym('c', complex))
r = outcome(p.validate(inst, x))
v = complex(x)
close = cast or (abs(x.real - v.real) <= TOL and abs(x.imag - v.imag) <= TOL)
if r.ok:
    must(isinstance(r.value, complex), 'an accepted number has the declared type')
    must(r.value == v, 'the value is the converted input')
    must(close, 'without casting, conversion stays within tolerance')
else:
    must(isinstance(r.error, ValidationError), 'a rejection is a validation error')
    must(not close, 'a value meeting the constraints is not rejected')
''', paths=600)
    add('complex-hostile', '''
cast = pick(True, False)
p = Complex('doc', cast=cast)
TEXT = sym('s', str)
x, istext = pick((TEXT, True), (sym('l', list), False), (None, False), (sym('x'), False))
r = outcome(p.validate(inst, x))
if r.ok:
    must(isinstance(r.value, complex), 'an accepted number has the declared type')
    must(same(r.value, complex(x)), 'the value is the converted input')
    must(cast or not istext, 'text is no number unless cast')
''', hostile=True)
    # inherited by subclasses of the client
    add('subclass', '''
class Positive(Float):
    def validate(self, instance, value):
        value = super(Positive, self).validate(instance, value)
        if value <= 0:
            self.error(instance, value)
        return value
mx = sym('mx', float)
p = Positive('doc', max=mx)
x = sym('f', float)
r = outcome(p.validate(inst, x))
if r.ok:
    must(not r.value > mx, 'the maximum is enforced')
    must(r.value == float(x), 'the value is the converted input')
''')
    # ------------------------------------------------------------- strings
    add('string', '''
strip = pick(None, '', ' ', 'ab', sym('chars', str))
case = pick(None, 'upper', 'lower')
uni = pick(None, True, False)
S = fn('S')
class RX(object):
    pattern = 'pattern'
    def search(self, text):
        return self if S(text) else None
    def match(self, text):
        return None
    fullmatch = match
rx = pick(None, RX())
kw = {}
if strip is not None:
    kw['strip'] = strip
if case is not None:
    kw['change_case'] = case
if uni is not None:
    kw['unicode'] = uni
if rx is not None:
    kw['regex'] = rx
p = String('doc', **kw)
x = sym('x', str) if uni is False else pick(sym('x', str), sym('y'))
r = outcome(p.validate(inst, x))
text = isinstance(x, str)
if r.ok:
    must(text, 'only text is accepted')
    must(isinstance(r.value, str), 'text is stored')
    must(rx is None or S(x), 'the input matches the regular expression')
    t = x.strip(strip) if strip is not None else x
    if case == 'upper':
        t, u = t.upper(), x.upper().strip("" if strip is None else strip)
    elif case == 'lower':
        t, u = t.lower(), x.lower().strip("" if strip is None else strip)
    else:
        u = t
    must(same(str(r.value), str(t)) or same(str(r.value), str(u)), 'text is stripped and its case changed as configured')
else:
    must(isinstance(r.error, ValidationError), 'a rejection is a validation error')
    must(not text or (rx is not None and not S(x)), 'text meeting the constraints is not rejected')
''', paths=1500, wall=60)
    add('string-concrete', '''
x = pick('', 'abc', ' aBc ', 'xabx', 'ABC')
strip = pick('', ' ', 'x')
case = pick(None, 'upper', 'lower')
p = String('doc', strip=strip, change_case=case)
r = outcome(p.validate(inst, x))
must(r.ok, 'text is accepted')
t = x.strip(strip) if strip else x
t = t.upper() if case == 'upper' else (t.lower() if case == 'lower' else t)
must(r.value == t, 'text is stripped and its case changed as configured')
''', paths=800)
    # ------------------------------------------------------------- choices
    add('choice-concrete', '''
sens = pick(True, False)
table = pick({'a': ['1', 'Xy'], 'Bcd': 'red', 'e': ()}, ['a', 'Bcd', 'e'], ('a', 'Bcd'), {'only': []})
p = StringChoice('doc', choices=table, case_sensitive=sens)
x = sym('x', str)
keys = list(table)
al = {}
for k in keys:
    v = table[k] if isinstance(table, dict) else []
    al[k] = [v] if isinstance(v, str) else list(v)
r = outcome(p.validate(inst, x))
if r.ok:
    must(r.value in keys, 'a declared choice is stored, never an alias')
    names = [r.value] + al[r.value]
    hit = [n for n in names if (x == n if sens else x.upper() == n.upper())]
    must(len(hit) > 0, 'the stored choice is the one that was named')
else:
    must(isinstance(r.error, ValidationError), 'a rejection is a validation error')
    for k in keys:
        for n in [k] + al[k]:
            must(not (x == n if sens else x.upper() == n.upper()), 'a named choice is not rejected')
''', paths=600)
    add('choice-words', '''
sens = pick(True, False)
p = StringChoice('doc', choices={'Red': pick(['r', 'Crimson'], ('r', 'Crimson'), {'r', 'Crimson'}), 'blue': 'B'}, case_sensitive=sens)
x, want, exact = pick(('Red', 'Red', True), ('red', 'Red', False), ('r', 'Red', True), ('R', 'Red', False),
                      ('CRIMSON', 'Red', False), ('Crimson', 'Red', True), ('blue', 'blue', True),
                      ('BLUE', 'blue', False), ('B', 'blue', True), ('b', 'blue', False),
                      ('green', None, True), ('', None, True), ('re', None, True), ('Red ', None, True))
if sens and not exact:
    want = None
r = outcome(p.validate(inst, x))
must(r.ok == (want is not None), 'exactly the declared choices and aliases are accepted')
if r.ok:
    must(r.value == want, 'an alias stands for its choice')
''', paths=400)
    add('choice-unknown', '''
k1, k2, a1, a2 = sym('k1', str), sym('k2', str), sym('a1', str), sym('a2', str)
for s, t in ((k1, k2), (k1, a1), (k1, a2), (k2, a1), (k2, a2), (a1, a2)):
    assume(not s == t)
p = StringChoice('doc', choices={k1: [a1], k2: a2}, case_sensitive=True)
x = pick(sym('x', str), sym('y'))
r = outcome(p.validate(inst, x))
if r.ok:
    must(r.value is k1 or r.value is k2, 'a declared choice is stored, never an alias')
    must(x == k1 or x == a1 if r.value is k1 else x == k2 or x == a2, 'an alias stands for its choice')
else:
    must(not isinstance(x, str) or not (x == k1 or x == k2 or x == a1 or x == a2), 'a named choice is not rejected')
''', paths=400)
    # -------------------------------------------------------------- colour
    add('color-list', '''
p = Color('doc')
x = pick([sym('a'), sym('b'), sym('c')], (sym('a'), sym('b'), sym('c')), [sym('a'), sym('b')], (),
         [sym('a'), sym('b'), sym('c'), sym('d')], sym('l', list), sym('t', tuple), sym('n', int), sym('z', set))
r = outcome(p.validate(inst, x))
if r.ok:
    must(type(r.value) is tuple and len(r.value) == 3, 'a colour has three components')
    for v in r.value:
        must(isinstance(v, int), 'colour components are integers')
        must(not v < 0 and not v > 255, 'colour components are 0 to 255')
    must(isinstance(x, (list, tuple)), 'a colour is a list or tuple')
    for i in range(3):
        must(r.value[i] is x[i], 'the components are kept')
else:
    must(isinstance(r.error, ValidationError), 'a rejection is a validation error')
    if isinstance(x, (list, tuple)) and len(x) == 3:
        bad = [v for v in x if not isinstance(v, int) or v < 0 or v > 255]
        must(len(bad) > 0, 'a proper colour is not rejected')
''', paths=1500, wall=60, K=4)
    add('color-text', '''
p = Color('doc')
x, want = pick(('#FF0000', (255, 0, 0)), ('00ff7F', (0, 255, 127)), ('#abc', (170, 187, 204)), ('F00', (255, 0, 0)),
               ('#010203', (1, 2, 3)), ('red', (255, 0, 0)), ('navy', (0, 0, 128)), ('tomato', (255, 99, 71)),
               ('12345', None), ('1234567', None), ('', None), ('#', None), ('GGGGGG', None), ('ggg', None),
               ('no such colour', None), ('12', None), ('#FFFFFFF', None))
r = outcome(p.validate(inst, x))
must(r.ok == (want is not None), 'exactly colour names and hexadecimal colours are accepted')
if r.ok:
    must(r.value == want, 'hexadecimal digits give the components in order')
''')
    add('color-random', '''
p = Color('doc')
r = outcome(p.validate(inst, pick('random', 'RANDOM', 'Random')))
must(r.ok, 'a random colour can be asked for')
for v in r.value:
    must(isinstance(v, int), 'colour components are integers')
    must(0 <= v <= 255, 'colour components are 0 to 255')
must(len(r.value) == 3, 'a colour has three components')
''', paths=100)
    add('color-limits', '''
p = Color('doc')
x = [pick(0, 255, 256, -1, 1.0, 128), pick(0, 255, 256, -1, '1'), pick(0, 255, 256, -1, None)]
r = outcome(p.validate(inst, x))
fine = len([v for v in x if isinstance(v, int) and 0 <= v <= 255]) == 3
must(r.ok == fine, 'exactly three integers from 0 to 255 are accepted')
if r.ok:
    must(r.value == tuple(x), 'the components are kept')
''', paths=400)
    # ---------------------------------------------------------- date, uuid
    add('datetime', '''
p = DateTime('doc')
x = pick(ext_instance('d', 'datetime.datetime'), sym('s', str), sym('x'), ext_instance('e', 'datetime.date'))
r = outcome(p.validate(inst, x))
if r.ok:
    must(isinstance(r.value, ext_name('datetime.datetime')), 'a date-time is stored')
    if isinstance(x, ext_name('datetime.datetime')):
        must(r.value is x, 'a date-time is kept')
    else:
        must(isinstance(x, str) and mentions(r.value, x), 'otherwise it is read from text')
else:
    must(isinstance(r.error, ValidationError), 'a rejection is a validation error')
    must(not isinstance(x, ext_name('datetime.datetime')), 'a date-time is not rejected')
''', hostile=True)
    add('uuid', '''
p = Uuid('doc')
x = pick(ext_instance('u', 'uuid.UUID'), sym('x'), sym('s', str))
r = outcome(p.validate(inst, x))
must(r.ok == isinstance(x, ext_name('uuid.UUID')), 'exactly unique ids are accepted')
if r.ok:
    must(r.value is x, 'a unique id is kept')
''')
    return S
