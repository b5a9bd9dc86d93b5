"""JSON writers and readers of each property type name the same forms and components."""
import json
import os

from checks.c20 import HEAD as STREAMS
from engine.explore import Scenario

CSS = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'css_colors.json')))
# one-letter names of the plotting convention the library documents
LETTERS = {'k': (0, 0, 0), 'b': (0, 0, 255), 'c': (0, 255, 255), 'g': (0, 255, 0), 'm': (255, 0, 255), 'r': (255, 0, 0),
           'w': (255, 255, 255), 'y': (255, 255, 0)}

HEAD = '''
import json
H = HasProperties
def plain(x):
    """Only what JSON can represent."""
    if x is None or isinstance(x, (str, bool, int)):
        return True
    if isinstance(x, float):
        return x == x and x not in (float('inf'), float('-inf'))
    if isinstance(x, list):
        return all([plain(y) for y in x])
    if isinstance(x, dict):
        return all([isinstance(k, str) and plain(x[k]) for k in x])
    return False
'''

# the part of datetime the library uses, as the C library of the platform does it
STAMP = '''
def two(n):
    return str(n) if n > 9 else '0' + str(n)
def four(n):
    s = str(n)
    while len(s) < 4:
        s = '0' + s
    return s
FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo')
class Stamp(object):
    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        self.year, self.month, self.day, self.hour, self.minute, self.second = year, month, day, hour, minute, second
        self.microsecond, self.tzinfo = microsecond, tzinfo
    def replace(self, **kwargs):
        d = {k: getattr(self, k) for k in FIELDS}
        d.update(kwargs)
        return Stamp(**d)
    def isoformat(self, sep='T', timespec='auto'):
        s = four(self.year) + '-' + two(self.month) + '-' + two(self.day) + sep + two(self.hour) + ':' + two(self.minute) + ':' + two(self.second)
        if timespec == 'auto' and self.microsecond:
            s = s + '.' + ('000000' + str(self.microsecond))[-6:]
        if self.tzinfo is not None:
            s = s + '+00:00'
        return s
    def __format__(self, spec):
        return self.strftime(spec) if spec else str(self)
    def __str__(self):
        return self.isoformat(' ')
    def strftime(self, fmt):
        written.append(fmt)
        s = ''
        i = 0
        while i < len(fmt):
            c = fmt[i]
            if c == '%':
                i = i + 1
                c = fmt[i]
                s = s + {'Y': str(self.year), 'm': two(self.month), 'd': two(self.day), 'H': two(self.hour), 'M': two(self.minute),
                         'S': two(self.second), 'f': ('000000' + str(self.microsecond))[-6:], 'y': two(self.year % 100),
                         'I': two(self.hour % 12 or 12), 'p': 'AM' if self.hour < 12 else 'PM', 'j': '001',
                         'T': two(self.hour) + ':' + two(self.minute) + ':' + two(self.second), 'Z': '', 'z': '',
                         'F': str(self.year) + '-' + two(self.month) + '-' + two(self.day)}[c]
            else:
                s = s + c
            i = i + 1
        return s
    @staticmethod
    def strptime(text, fmt):
        read.append(fmt)
        d = {'Y': 1900, 'm': 1, 'd': 1, 'H': 0, 'M': 0, 'S': 0, 'f': 0, 'p': ''}
        i = j = 0
        while i < len(fmt):
            c = fmt[i]
            i = i + 1
            if c != '%':
                if j >= len(text) or text[j] != c:
                    raise ValueError('does not match')
                j = j + 1
                continue
            c = fmt[i]
            i = i + 1
            if c == 'p':
                d['p'] = text[j:j + 2]
                j = j + 2
                continue
            need = {'Y': (4, 4), 'm': (1, 2), 'd': (1, 2), 'H': (1, 2), 'M': (1, 2), 'S': (1, 2), 'f': (1, 6), 'y': (2, 2), 'I': (1, 2)}[c]
            k = j
            while k < len(text) and k - j < need[1] and text[k] in '0123456789':
                k = k + 1
            if k - j < need[0]:
                raise ValueError('does not match')
            n = int(text[j:k])
            if c == 'f':
                n = int((text[j:k] + '000000')[:6])
            if c == 'y':
                c, n = 'Y', (n + 2000 if n < 69 else n + 1900)
            if c == 'I':
                c = 'H'
                n = n % 12
            d[c] = n
            j = k
        if j != len(text):
            raise ValueError('unconverted data remains')
        if d['p'] == 'PM':
            d['H'] = d['H'] + 12
        if not (1 <= d['m'] <= 12 and 1 <= d['d'] <= 31 and d['H'] < 24 and d['M'] < 60 and d['S'] < 62):
            raise ValueError('out of range')
        return Stamp(d['Y'], d['m'], d['d'], d['H'], d['M'], d['S'], d['f'])
    @staticmethod
    def fromisoformat(text):
        date = Stamp.strptime(text[:10], '%Y-%m-%d')
        if len(text) == 10:
            return date
        text = text.replace('Z', '')
        time = Stamp.strptime(text[11:19], '%H:%M:%S')
        return Stamp(date.year, date.month, date.day, time.hour, time.minute, time.second)
written, read = [], []
stub('datetime.datetime', Stamp)
def seconds(s):
    return (s.year, s.month, s.day, s.hour, s.minute, s.second)
'''

# values of arrays: nested lists of numbers, a kind, and the conversions numpy makes
ARRAYS = '''
def flat(x):
    if isinstance(x, list):
        out = []
        for y in x:
            out = out + flat(y)
        return out
    return [x]
def deep(f, x):
    if isinstance(x, list):
        return [deep(f, y) for y in x]
    return f(x)
def lists(x):
    if isinstance(x, Values):
        return lists(x.items)
    if isinstance(x, (list, tuple)):
        return [lists(y) for y in x]
    return x
def form(x):
    if not isinstance(x, list):
        return ()
    if not x:
        return (0,)
    inner = form(x[0])
    for y in x:
        if form(y) != inner:
            raise ValueError('inhomogeneous shape')
    return (len(x),) + inner
RANK = 'buifcU'
class Kind(object):
    def __init__(self, kind):
        self.kind = kind
def kind_of(x):
    if isinstance(x, str):
        return 'U'
    if isinstance(x, bool):
        return 'b'
    if isinstance(x, int):
        return 'i'
    if isinstance(x, float):
        return 'f'
    if isinstance(x, complex):
        return 'c'
    raise TypeError('object array')
def to_kind(x, kind):
    if kind == 'f':
        if isinstance(x, complex):
            return x.real
        return float(x)
    if kind == 'c':
        return complex(x)
    if kind == 'i':
        return int(x)
    if kind == 'b':
        return bool(x)
    return str(x)
class Values(np.ndarray):
    def __init__(self, items, kind=None):
        items = lists(items)
        self.shape = form(items)
        self.ndim = len(self.shape)
        if kind is None:
            kind = 'b'
            every = flat(items)
            if not every:
                kind = 'f'
            for x in every:
                k = kind_of(x)
                if RANK.index(k) > RANK.index(kind):
                    kind = k
        self.items = deep(lambda x: to_kind(x, kind), items)
        self.dtype = Kind(kind)
    def tolist(self):
        return self.items
    def astype(self, typ):
        converted.append(typ)
        kind = {float: 'f', int: 'i', bool: 'b', complex: 'c', str: 'U'}[typ]
        return type(self)(self.items) if kind == self.dtype.kind else Values(self.items, kind)
    def copy(self):
        return type(self)(self.items)
    def __len__(self):
        return len(self.items)
    def __getitem__(self, i):
        return self.items[i]
    def __iter__(self):
        return iter(self.items)
converted = []
class Vec3(Values):
    n = 3
    def __init__(self, value):
        items = lists(value)
        if not isinstance(items, list) or len(items) != self.n or any([isinstance(x, (str, list)) for x in items]):
            raise ValueError('invalid input for a vector')
        Values.__init__(self, items, 'f')
class Vec2(Vec3):
    n = 2
class Vec3s(Values):
    n = 3
    def __init__(self, value):
        Values.__init__(self, value, 'f')
        if self.ndim == 1 and self.shape[0] == self.n:
            Values.__init__(self, [self.items], 'f')
        if self.ndim != 2 or self.shape[1] != self.n:
            raise ValueError('invalid input for vectors')
class Vec2s(Vec3s):
    n = 2
def array(x, dtype=None):
    v = Values(x)
    return v if dtype is None else v.astype(dtype)
stub('numpy.array', array)
stub('numpy.asarray', array)
def check(test, x):
    if isinstance(x, str):
        raise TypeError('not a number')
    return test(x.real) or test(x.imag) if isinstance(x, complex) else test(x)
stub('numpy.isnan', lambda x: check(lambda v: v != v, x))
stub('numpy.isinf', lambda x: check(lambda v: v in (float('inf'), float('-inf')), x))
stub('numpy.isfinite', lambda x: check(lambda v: v == v and v not in (float('inf'), float('-inf')), x))
for n, c in (('Vector3', Vec3), ('Vector2', Vec2), ('Vector3Array', Vec3s), ('Vector2Array', Vec2s)):
    stub('vectormath.' + n, c)
    stub('vectormath.vector.' + n, c)
def render(x):
    if isinstance(x, list):
        return '[' + ', '.join([render(y) for y in x]) + ']'
    return str(x)
def text_of(v):
    return render(v.items) + v.dtype.kind + type(v).__name__
'''


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 500)
        S.append(Scenario(name, HEAD + src, **k))

    stamps = ['(2020, 12, 31, 23, 58, 59)', '(1999, 1, 2, 3, 4, 5)', '(1, 2, 3, 4, 5, 6)', '(999, 10, 11, 12, 13, 14)', '(9999, 12, 31, 0, 0, 0)',
              '(2000, 2, 29, 12, 0, 1)', '(1995, 8, 12, 18, 0, 0, 250000)', '(1000, 7, 9, 1, 30, 0)', '(2001, 10, 1, 13, 5, 9, 999999)']
    add('datetime', STAMP + '''
s = Stamp(*pick(%s))
caller(s)
n = now()
how = pick('static', 'property', 'instance', 'member', 'input')
p = DateTime('d')
class K(H):
    d = DateTime('d')
    l = List('l', DateTime('d'), default=list)
if how == 'static':
    j = DateTime.to_json(s)
    back = DateTime.from_json(j)
elif how == 'property':
    j = p.serialize(s)
    back = p.deserialize(j)
elif how == 'instance':
    k = K(d=s)
    j = k.serialize()['d']
    back = K.deserialize(k.serialize()).d
elif how == 'member':
    k = K(l=[s])
    j = k.serialize()['l'][0]
    back = K.deserialize(k.serialize()).l[0]
else:
    j = DateTime.to_json(s)
    back = p.validate(None, j)
must(isinstance(j, str) and len(j) == 20 and j[4] == '-' and j[7] == '-' and j[10] == 'T' and j[13] == ':' and j[16] == ':' and j[19] == 'Z',
     'a date-time is written as YYYY-MM-DDTHH:MM:SSZ')
must((int(j[:4]), int(j[5:7]), int(j[8:10]), int(j[11:13]), int(j[14:16]), int(j[17:19])) == seconds(s), 'the components are written in their places')
must(isinstance(back, Stamp) and seconds(back) == seconds(s), 'the reader understands what the writer produces')
untouched(s, since=n)
''' % ', '.join(stamps), steps=120000)
    add('datetime-short', STAMP + '''
y, m, d = pick((1995, 8, 12), (2000, 2, 29), (1, 2, 3), (2019, 11, 30))
sep = pick('/', '-')
text = four(y) + sep + two(m) + sep + two(d)
r = outcome(pick(DateTime.from_json, lambda t: DateTime('d').validate(None, t), DateTime('d').deserialize)(text))
must(r.ok, 'a date alone is understood')
must(seconds(r.value) == (y, m, d, 0, 0, 0), 'year, month and day are read from their places')
''')
    add('datetime-bad', STAMP + '''
text = pick('', 'now', '2020', '2020-01-01T', '2020-01-01T00:00:00', '2020-01-01 00:00:00Z', '2020-01-01T00:00Z', '20-01-01', '01/02/2003', '2020/13/01',
            '2020-01-32', '2020-01-01T25:00:00Z', '2020-1-1T0:0:0', '2020-01-01T00:00:00ZZ', '12:30:00')
r = outcome(DateTime('d').validate(None, text))
must(not r.ok and isinstance(r.error, properties.ValidationError), 'other texts are refused')
''')
    add('color', '''
a, b, c = sym('a', int), sym('b', int), sym('c', int)
assume(0 <= a and a <= 255)
assume(0 <= b and b <= 255)
assume(0 <= c and c <= 255)
class K(H):
    d = Color('d')
    l = Tuple('l', Color('d'))
p = Color('d')
v = pick((a, b, c), [a, b, c])
how = pick('static', 'property', 'instance', 'member')
if how == 'static':
    j = Color.to_json(p.validate(None, v))
    back = Color.from_json(j)
elif how == 'property':
    j = p.serialize(p.validate(None, v))
    back = p.deserialize(j)
elif how == 'instance':
    k = K(d=v)
    j = k.serialize()['d']
    back = K.deserialize(k.serialize()).d
else:
    k = K(l=(v,))
    j = k.serialize()['l'][0]
    back = K.deserialize(k.serialize()).l[0]
must(isinstance(j, list) and len(j) == 3 and same(j[0], a) and same(j[1], b) and same(j[2], c), 'a color is written as the list of its parts')
must(isinstance(back, tuple) and len(back) == 3 and same(back[0], a) and same(back[1], b) and same(back[2], c), 'the reader understands what the writer produces')
''')
    names = sorted(CSS)
    for i in range(0, len(names), 40):
        add('color-names-%d' % (i // 40), '''
p = Color('d')
for name, rgb in %r:
    r = outcome(p.validate(None, name))
    must(r.ok, 'every standard colour name is known')
    must(r.value == rgb, 'a colour name means its standard value')
    must(isinstance(r.value, tuple), 'a colour is a tuple')
''' % ([(n, tuple(CSS[n])) for n in names[i:i + 40]] + (sorted(LETTERS.items()) if i == 0 else []),), steps=200000)
    add('color-table', '''
known = %r
for name in sorted(properties.basic.COLORS_NAMED):
    must(name in known, 'no other name means a colour')
p = Color('d')
seen = []
for name in properties.basic.COLORS_20:
    v = p.validate(None, name)
    must(isinstance(v, tuple) and len(v) == 3, 'the random colours are colours')
''' % (sorted(CSS) + sorted(LETTERS),), steps=200000)
    add('color-random', '''
offered = []
def choose(options):
    options = list(options)
    offered.append(options)
    return options[pick(0, 3, 7, len(options) - 1)]
stub('random.choice', choose)
stub('secrets.choice', choose)
stub('random.sample', lambda options, n: [choose(options)])
p = Color('d')
r = outcome(p.validate(None, pick('random', 'RANDOM', 'Random')))
must(r.ok and isinstance(r.value, tuple) and len(r.value) == 3, 'a random colour is a colour')
must(all([isinstance(x, int) and 0 <= x <= 255 for x in r.value]), 'a random colour is a colour')
''')
    add('color-hex', '''
p = Color('d')
text, want = pick(('#1a2B3c', (26, 43, 60)), ('1a2B3c', (26, 43, 60)), ('#f80', (255, 136, 0)), ('F80', (255, 136, 0)), ('000', (0, 0, 0)),
                  ('#010203', (1, 2, 3)), ('#FFFFFF', (255, 255, 255)), ('0a0B0c', (10, 11, 12)))
must(p.validate(None, text) == want, 'hexadecimal digits are read in the order red, green, blue')
must(Color.from_json(Color.to_json(p.validate(None, text))) == want, 'the reader understands what the writer produces')
''')
    add('complex', '''
v = pick(1 + 2j, -1.5 - 0.25j, 0j, 5j, complex('inf'), complex('nan'), complex('1e300-1e-300j'), complex(3))
class K(H):
    d = Complex('d')
    l = Set('l', Complex('d'))
how = pick('static', 'property', 'instance', 'member')
p = Complex('d')
if how == 'static':
    j = Complex.to_json(v)
    back = Complex.from_json(j)
elif how == 'property':
    j = p.serialize(v)
    back = p.deserialize(j)
elif how == 'instance':
    k = K(d=v)
    j = k.serialize()['d']
    back = K.deserialize(k.serialize()).d
else:
    k = K(l={v})
    j = k.serialize()['l'][0]
    back = list(K.deserialize(k.serialize()).l)[0]
must(j == str(v), 'a complex number is written as its text')
must(isinstance(back, complex) and str(back) == str(v), 'the reader understands what the writer produces')
''')
    add('float', '''
v = pick(0.0, 1.5, -2.25e-300, 1e300, float('inf'), float('-inf'), float('nan'), 0.1, 3.0)
class K(H):
    d = Float('d')
    l = List('l', Float('d'))
    m = Dictionary('m', value_prop=Float('d'))
how = pick('static', 'property', 'instance', 'member', 'value')
p = Float('d')
if how == 'static':
    j = Float.to_json(v)
    back = Float.from_json(j)
elif how == 'property':
    j = p.serialize(v)
    back = p.deserialize(j)
elif how == 'instance':
    k = K(d=v)
    j = k.serialize()['d']
    back = K.deserialize(k.serialize()).d
elif how == 'member':
    k = K(l=[v])
    j = k.serialize()['l'][0]
    back = K.deserialize(k.serialize()).l[0]
else:
    k = K(m={'a': v})
    j = k.serialize()['m']['a']
    back = K.deserialize(k.serialize()).m['a']
if v != v or v in (float('inf'), float('-inf')):
    must(j == str(v), 'a number which is not finite is written as its text')
else:
    must(j == v and isinstance(j, float), 'a finite number is written as it is')
must(plain(j), 'what is written can be represented in JSON')
must(isinstance(back, float) and str(back) == str(v), 'the reader understands what the writer produces')
''')
    add('integer', '''
v = sym('v', int)
assume(not isinstance(v, bool))
class K(H):
    d = Integer('d')
k = K()
j = Integer.to_json(v)
must(same(j, v), 'an integer is written as it is')
must(same(Integer.from_json(j), v) or Integer.from_json(j) == v, 'the reader understands what the writer produces')
w = pick(0, -5, 7)
must(Integer.from_json(str(w)) == w and Integer.from_json(Integer.to_json(w)) == w, 'the reader understands integers and their text')
''')
    add('boolean', '''
v = pick(True, False)
class K(H):
    d = Boolean('d')
    l = List('l', Boolean('d'))
how = pick('static', 'instance', 'member')
if how == 'static':
    j = Boolean.to_json(v)
    back = Boolean.from_json(j)
elif how == 'instance':
    k = K(d=v)
    j = k.serialize()['d']
    back = K.deserialize(k.serialize()).d
else:
    k = K(l=[v])
    j = k.serialize()['l'][0]
    back = K.deserialize(k.serialize()).l[0]
must(j is v, 'a boolean is written as it is')
must(back is v, 'the reader understands what the writer produces')
for text, want in (('true', True), ('True', True), ('y', True), ('YES', True), ('on', True), ('false', False), ('FALSE', False), ('n', False),
                   ('no', False), ('Off', False)):
    must(Boolean.from_json(text) is want, 'the reader understands the words for true and false')
for text in ('', 'maybe', 'truefalse', '1', '0', 't', 'f', None, [], 2.0):
    r = outcome(Boolean.from_json(text))
    must(not r.ok and isinstance(r.error, ValueError), 'other texts are refused')
''')
    add('uuid', '''
class Id(object):
    """An identifier: its text is in lower case, with dashes."""
    def __init__(self, hex=None, bytes=None, int=None, version=None):
        if not isinstance(hex, str):
            raise AttributeError('no text')
        if len(hex) < 4:
            raise ValueError('badly formed')
        self.text = hex
    def __str__(self):
        return self.text
    @property
    def hex(self):
        return self.text
    @property
    def urn(self):
        return 'urn:uuid:' + self.text
    def __eq__(self, other):
        return isinstance(other, Id) and self.text == other.text
made = Id('1234-abcd')
stub('uuid.UUID', Id)
stub('uuid.uuid4', lambda: made)
class K(H):
    d = Uuid('d')
k = K()
how = pick('static', 'property', 'instance')
if how == 'static':
    j = Uuid.to_json(made)
    back = Uuid.from_json(j)
elif how == 'property':
    j = K._props['d'].serialize(made)
    back = K._props['d'].deserialize(j)
else:
    must(k.d is made, 'an identifier is made')
    j = k.serialize()['d']
    back = Uuid('d').deserialize(j)
must(isinstance(j, str) and j == '1234-abcd', 'an identifier is written as its text')
must(isinstance(back, Id) and back == made, 'the reader understands what the writer produces')
''')
    vals = [('[1.5, -2.0]', ''), ('[1, 2]', ''), ('[1.5, 2.5]', 'dtype=(int, float)'), ('[1, 2]', 'dtype=(int, float)'), ('[True, False]', 'dtype=bool'),
            ('[True, False]', 'dtype=(int, bool)'), ('[1+2j, 0j]', 'dtype=complex'), ('[1+2j]', 'dtype=(float, complex)'), ('[0.5]', 'dtype=(float, complex)'),
            ("[float('nan'), 1.0]", ''), ("[float('inf'), float('-inf')]", 'dtype=(int, float)'), ("[complex('nan'), 1j]", 'dtype=(float, complex)'),
            ('[[1.0, 2.0], [3.0, 4.5]]', "shape=('*', 2)"), ("[[1.0, float('nan')]]", "shape=('*', '*')"), ('[[[1], [2]]]', 'shape=None'), ('[]', ''),
            ('[[], []]', "shape=('*', '*')"), ('4.5', 'shape=()'), ("float('inf')", 'shape=None'), ('7', "shape={(), (3,)}, dtype=int"),
            ('3j', "shape=None, dtype=complex")]
    for i, (v, opts) in enumerate(vals):
        add('array-%d' % i, ARRAYS + '''
v = Values(%s)
class K(H):
    d = Array('d', %s)
    l = List('l', Array('d', %s))
kind = v.dtype.kind
before = text_of(v)
how = pick('property', 'instance', 'member')
p = K._props['d']
must(p.validate(None, v).dtype.kind == kind, 'the array is acceptable')
if how == 'property':
    j = p.serialize(v)
    back = p.deserialize(j)
elif how == 'instance':
    k = K(d=v)
    j = k.serialize()['d']
    back = K.deserialize(k.serialize()).d
else:
    k = K(l=[v])
    j = k.serialize()['l'][0]
    back = K.deserialize(k.serialize()).l[0]
must(plain(j), 'what is written can be represented in JSON')
must(form(j) == v.shape or () in v.shape, 'an array is written as nested lists of its shape')
must(isinstance(back, Values) and back.shape == v.shape, 'the reader understands what the writer produces')
must(render(deep(complex, back.items)) == render(deep(complex, v.items)), 'the numbers read are the ones written')
must(text_of(v) == before, 'writing leaves the array alone')
''' % (v, opts, opts))
    add('array-static', ARRAYS + '''
v = Values(pick([1.5, -2.0], [float('nan'), float('inf'), float('-inf')], [[1.0, 2.0], [3.0, 4.0]], 2.5))
j = Array.to_json(v)
back = Array.from_json(j)
must(plain(j), 'what is written can be represented in JSON')
must(isinstance(back, Values) and text_of(back) == text_of(v), 'the reader understands what the writer produces')
''')
    for cls, good in (('Vector3', '[1.0, -2.5, 3.0]'), ('Vector3', "[float('nan'), 1.0, float('-inf')]"), ('Vector2', '[0.5, 2.0]'),
                      ('Vector2', "[float('inf'), float('nan')]"), ('Vector3Array', '[[1.0, 2.0, 3.0], [4.0, 5.0, 6.5]]'),
                      ('Vector3Array', "[[1.0, float('nan'), 3.0]]"), ('Vector2Array', '[[1.0, 2.5]]'), ('Vector2Array', "[[float('inf'), 2.0], [1.0, 0.0]]")):
        add('%s-%d' % (cls, len(S)), ARRAYS + '''
V = %s
v = {'Vector3': Vec3, 'Vector2': Vec2, 'Vector3Array': Vec3s, 'Vector2Array': Vec2s}['%s'](%s)
class K(H):
    d = V('d')
    l = List('l', V('d'))
p = K._props['d']
how = pick('static', 'property', 'instance', 'member')
if how == 'static':
    j = V.to_json(v)
    back = V.from_json(j)
elif how == 'property':
    j = p.serialize(v)
    back = p.deserialize(j)
elif how == 'instance':
    k = K(d=v)
    j = k.serialize()['d']
    back = K.deserialize(k.serialize()).d
else:
    k = K(l=[v])
    j = k.serialize()['l'][0]
    back = K.deserialize(k.serialize()).l[0]
must(plain(j), 'what is written can be represented in JSON')
must(form(j) == v.shape, 'a vector is written as the list of its components')
must(type(back) is type(v) and text_of(back) == text_of(v), 'the reader understands what the writer produces')
''' % (cls, cls, good))
    add('image', STREAMS + """
def stream(data):
    s = Stream()
    s.data = data
    s.__valid__ = True
    return s
class K(H):
    i = ImagePNG('d')
    m = Dictionary('m', value_prop=ImagePNG('d'), default=dict)
how = pick('static', 'property', 'instance', 'member')
s = stream(DATA)
if how == 'static':
    j = ImagePNG.to_json(s)
    back = ImagePNG.from_json(j)
elif how == 'property':
    j = K._props['i'].serialize(s)
    back = K._props['i'].deserialize(j)
elif how == 'instance':
    j = K(i=s).serialize()['i']
    back = K.deserialize(K(i=s).serialize()).i
else:
    j = K(m={'a': s}).serialize()['m']['a']
    back = K.deserialize(K(m={'a': s}).serialize()).m['a']
must(isinstance(j, str) and j.startswith('data:image/png;base64,'), 'an image is written with its prefix')
must(isinstance(back, Stream) and back.data is DATA and back.pos == 0, 'the reader understands what the writer produces')
""")
    add('markers', """
import properties.extras
X = properties.extras
ids = []
def fresh():
    ids.append(1)
    return 'generated-' + str(len(ids))
stub('uuid.uuid4', fresh)
class A(H):
    n = Integer('n')
class B(A):
    m = String('m')
class S(X.Singleton):
    n = Integer('n')
class U(X.HasUID):
    n = Integer('n')
    other = Instance('o', X.HasUID)
class V(U):
    k = Integer('k')
how = pick('class', 'member', 'singleton', 'uid', 'uid-root', 'uid-sub', 'list', 'union', 'pointer')
if how == 'class':
    j = B(n=1, m='x').serialize()
    must(j == {'n': 1, 'm': 'x', '__class__': 'B'}, 'an instance is written with its class')
    back = A.deserialize(j, trusted=True)
    must(type(back) is B and back.n == 1 and back.m == 'x', 'the reader understands what the writer produces')
elif how == 'member':
    class K(H):
        a = Instance('a', A)
    j = K(a=B(n=1, m='x')).serialize()
    must(j == {'__class__': 'K', 'a': {'n': 1, 'm': 'x', '__class__': 'B'}}, 'a member is written with its class')
    back = K.deserialize(j, trusted=True)
    must(type(back.a) is B and back.a.m == 'x', 'the reader understands what the writer produces')
elif how == 'singleton':
    s = S('me', n=3)
    j = s.serialize()
    must(j['__class__'] == 'S' and j['_singleton_id'] == 'me' and j['n'] == 3 and len(j) == 3, 'a singleton is written with class and name')
    must(X.Singleton.deserialize(j, trusted=True) is s, 'the reader understands what the writer produces')
    must(S.deserialize(j) is s, 'the reader understands what the writer produces')
elif how == 'uid':
    u = U(uid='one', n=4)
    j = u.serialize()
    must(j['__root__'] == 'one' and sorted(j) == ['__root__', 'one'], 'an object is written under its id, the root named')
    must(j['one']['n'] == 4 and j['one']['__class__'] == 'U' and j['one']['uid'] == 'one', 'an object is written with class and id')
    U._INSTANCES.clear()
    back = U.deserialize(j)
    must(type(back) is U and back.uid == 'one' and back.n == 4, 'the reader understands what the writer produces')
elif how == 'uid-root':
    u = U(uid='one', n=4, other=V(uid='two', k=5))
    j = u.serialize()
    must(sorted(j) == ['__root__', 'one', 'two'] and j['one']['other'] == 'two', 'a member is written as its id')
    must(j['two']['__class__'] == 'V' and j['two']['k'] == 5, 'a member is written under its id')
    U._INSTANCES.clear()
    back = X.HasUID.deserialize(j, trusted=True)
    must(back.uid == 'one' and type(back) is U, 'the root is found again')
    must(type(back.other) is V and back.other.uid == 'two' and back.other.k == 5, 'the reader understands what the writer produces')
elif how == 'uid-sub':
    v = V(uid='two', k=5)
    j = v.serialize()
    U._INSTANCES.clear()
    back = U.deserialize(j, trusted=True)
    must(type(back) is V and back.k == 5, 'the reader understands what the writer produces')
elif how == 'list':
    class K(H):
        a = List('a', A)
        t = Tuple('t', A)
        s = Dictionary('s', value_prop=A)
    j = K(a=[B(n=1, m='x'), A(n=2)], t=(B(m='y'),), s={'k': B(m='z')}).serialize()
    must(j == {'__class__': 'K', 'a': [{'n': 1, 'm': 'x', '__class__': 'B'}, {'n': 2, '__class__': 'A'}],
               't': [{'m': 'y', '__class__': 'B'}], 's': {'k': {'m': 'z', '__class__': 'B'}}}, 'members are written with their class')
    back = K.deserialize(j, trusted=True)
    must([type(x) for x in back.a] == [B, A] and type(back.t[0]) is B and type(back.s['k']) is B, 'the reader understands what the writer produces')
    must(back.a[0].m == 'x' and back.a[1].n == 2 and back.t[0].m == 'y' and back.s['k'].m == 'z', 'the reader understands what the writer produces')
elif how == 'union':
    class K(H):
        a = Union('a', [Integer('i'), A])
    j = K(a=B(n=1, m='x')).serialize()
    must(j == {'__class__': 'K', 'a': {'n': 1, 'm': 'x', '__class__': 'B'}}, 'a member is written with its class')
    back = K.deserialize(j, trusted=True)
    must(type(back.a) is B and back.a.m == 'x', 'the reader understands what the writer produces')
else:
    class K(X.HasUID):
        p = X.Pointer('p', U)
    u = U(uid='t', n=1)
    j = K(uid='k', p=u).serialize()
    must(j['k']['p'] == 't', 'a pointer is written as the id of its target')
    U._INSTANCES.clear()
    back = K.deserialize(j)
    must(back.uid == 'k' and back.p == 't' or type(back.p) is U, 'the reader understands what the writer produces')
""")
    containers = [('List', '[a, b]', 'Integer', 'int', 'list'), ('Tuple', '(a, b)', 'String', 'str', 'tuple'), ('Set', '{a, b}', 'Integer', 'int', 'set'),
                  ('Set', '{a}', 'String', 'str', 'set'), ('List', '[a, b]', 'Boolean', 'bool', 'list'), ('Tuple', '(a,)', 'Integer', 'int', 'tuple')]
    for i, (c, v, member, ty, back) in enumerate(containers):
        add('container-%d' % i, """
class K(H):
    c = %s('c', %s('m'))
    plain_ = %s('c')
a, b = sym('a', %s), sym('b', %s)
assume(not (a == b))
how = pick('typed', 'plain', 'nested')
if how == 'nested':
    class K2(H):
        c = List('o', %s('c', %s('m')))
    k = K2(c=[%s])
    j = k.serialize()['c'][0]
    r = K2.deserialize(k.serialize()).c[0]
elif how == 'typed':
    k = K(c=%s)
    j = k.serialize()['c']
    r = K.deserialize(k.serialize()).c
else:
    k = K(plain_=%s)
    j = k.serialize()['plain_']
    r = K.deserialize(k.serialize()).plain_
v = %s
must(isinstance(j, list) and len(j) == len(v), 'a container is written as a list')
for x in v:
    must(any([same(x, y) for y in j]), 'every member is written')
must(isinstance(r, %s) and len(r) == len(v), 'the reader understands what the writer produces')
for x in v:
    must(any([same(x, y) or y == x for y in r]), 'the reader understands what the writer produces')
""" % (c, member, c, ty, ty, c, member, v, v, v, v, back))
    add('container-dict', """
class K(H):
    d = Dictionary('d', key_prop=String('k'), value_prop=List('v', Color('c')))
k = K(d={'a': ['red', (1, 2, 3)], 'b': []})
j = k.serialize()['d']
must(j == {'a': [[255, 0, 0], [1, 2, 3]], 'b': []}, 'members of members are written in their form')
r = K.deserialize(k.serialize()).d
must(r == {'a': [(255, 0, 0), (1, 2, 3)], 'b': []} and isinstance(r['a'][0], tuple), 'the reader understands what the writer produces')
""")
    add('container-static', """
a, b = sym('a', str), sym('b', str)
assume(not (a == b))
for P, v in ((List, [a, b]), (Tuple, (a, b)), (Set, {a, b}), (Dictionary, {'x': a, 'y': b})):
    j = P.to_json(v)
    must(isinstance(j, dict if P is Dictionary else list) and len(j) == 2, 'a container is written as a list or dictionary')
    back = P.from_json(j)
    must(type(back) is type(v) and len(back) == 2, 'the reader understands what the writer produces')
    if P is Dictionary:
        must(same(back['x'], a) and same(back['y'], b), 'the reader understands what the writer produces')
    else:
        must(all([any([same(x, y) for y in back]) for x in v]), 'the reader understands what the writer produces')
""")
    return S
