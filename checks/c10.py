"""Containers hold validated copies with the declared element types."""
from engine.explore import Scenario

DEFS = '''
class H(HasProperties):
    pass
V = fn('V', ValueError, ValidationError)
W = fn('W', ValueError)
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        return V(value)
class Q(Property):
    class_info = 'q'
    def validate(self, instance, value):
        return W(value)
class MyList(list):
    pass
class MySet(set):
    pass
class MyDict(dict):
    pass
'''

JUDGE = '''
def in_order(value, items):
    must(len(value) == len(items), 'no element is skipped or added')
    i = 0
    for v in value:
        must(same(v, V(items[i])), 'each element is the result of validating the input element, in order')
        i = i + 1
def all_valid(items):
    n = 0
    for i in items:
        if outcome(V(i)).ok:
            n = n + 1
    return n == len(items)
'''


def scenarios():
    S = []

    def add(name, src, **k):
        S.append(Scenario(name, DEFS + JUDGE + src, **k))

    X = {'tuple': "pick((), (sym('a'),), (sym('a'), sym('b')), (sym('a'), sym('b'), sym('c')), sym('t', tuple))",
         'list': "pick([], [sym('a')], [sym('a'), sym('b')], [sym('a'), sym('b'), sym('c')], sym('l', list))"}
    for kind, cls in (('tuple', 'Tuple'), ('list', 'List')):
        add(kind, '''
p = %s('doc', P('d'))
x = caller(%s)
inst = pick(None, H())
r = outcome(p.validate(inst, x))
good = all_valid(x)
must(r.ok == good, 'a container is accepted exactly when every element is')
if r.ok:
    must(type(r.value) is %s, 'a container of the declared class is stored')
    if type(x) is not tuple:
        must(r.value is not x, 'the stored container is a new one')
    in_order(r.value, x)
else:
    must(isinstance(r.error, ValidationError), 'a rejected element is a validation error')
must(untouched(), 'the container passed in stays as it was')
''' % (cls, X[kind], kind), paths=600, K=3)
    add('list-observed', '''
p = List('doc', P('d'), observe_mutations=True)
p.name = 'field'
x = caller([sym('a'), sym('b')])
inst = pick(None, H())
r = outcome(p.validate(inst, x))
must(r.ok == all_valid(x), 'a container is accepted exactly when every element is')
if r.ok:
    must(isinstance(r.value, list), 'a container of the declared class is stored')
    must(r.value is not x, 'the stored container is a new one')
    in_order(r.value, x)
must(untouched(), 'the container passed in stays as it was')
''', paths=600)
    add('set', '''
p = Set('doc', P('d'), observe_mutations=pick(True, False))
p.name = 'field'
a, b = sym('a'), sym('b')
assume(not a == b)
x = caller(pick({a, b}, {a}, set()))
items = list(x)
r = outcome(p.validate(None, x))
must(r.ok == all_valid(items), 'a container is accepted exactly when every element is')
if r.ok:
    must(isinstance(r.value, set), 'a container of the declared class is stored')
    must(r.value is not x, 'the stored container is a new one')
    n = 0
    for i in items:
        must(V(i) in r.value, 'every element is validated and kept')
    must(len(r.value) <= len(items), 'no element is added')
    for v in r.value:
        found = False
        for i in items:
            if same(v, V(i)):
                found = True
        must(found, 'every stored element was validated')
must(untouched(), 'the container passed in stays as it was')
''', paths=600)
    add('dictionary', '''
kp, vp, obs = pick(True, False), pick(True, False), pick(True, False)
p = Dictionary('doc', observe_mutations=obs, coerce=pick(True, False))
if kp:
    p.key_prop = P('d')
if vp:
    p.value_prop = Q('d')
p.name = 'field'
x = caller(pick({}, {'k': sym('a')}, {'k': sym('a'), 'l': sym('b')}, sym('x', dict)))
keys = list(x)
good = True
for k in keys:
    if kp and not outcome(V(k)).ok:
        good = False
    if vp and not outcome(W(x[k])).ok:
        good = False
if kp and good and len(keys) == 2:
    assume(not V(keys[0]) == V(keys[1]))
r = outcome(p.validate(None, x))
must(r.ok == good, 'a dictionary is accepted exactly when every key and value is')
if r.ok:
    must(isinstance(r.value, dict), 'a container of the declared class is stored')
    must(r.value is not x, 'the stored container is a new one')
    must(len(r.value) == len(keys), 'no entry is skipped or added')
    i = 0
    for k in r.value:
        want = V(keys[i]) if kp else keys[i]
        must(same(k, want), 'each key is the result of validating the input key')
        old = x[keys[i]]
        must(same(r.value[k], W(old) if vp else old), 'each value is the result of validating the input value')
        i = i + 1
must(untouched(), 'the container passed in stays as it was')
''', paths=900, wall=60)
    # ------------------------------------------------------------ subclasses
    add('subclass', '''
make, x = pick((List, MyList([sym('a'), sym('b')])), (Set, MySet([sym('a')])))
coerce = pick(True, False)
p = make('doc', P('d'), coerce=coerce)
x = caller(x)
items = list(x)
r = outcome(p.validate(None, x))
must(r.ok == all_valid(items), 'a container is accepted exactly when every element is')
if r.ok:
    must(r.value is not x, 'the stored container is a new one')
    must(isinstance(r.value, p._class_container), 'a container of the declared class is stored')
    must(type(r.value) is type(x) or type(r.value) is p._class_container, 'the class is the declared or the caller\\'s')
    in_order(r.value, items)
must(untouched(), 'the container passed in stays as it was')
''', paths=400)
    add('dict-subclass', '''
p = Dictionary('doc', value_prop=P('d'), coerce=pick(True, False))
x = MyDict()
x['k'] = sym('a')
caller(x)
r = outcome(p.validate(None, x))
must(r.ok == outcome(V(x['k'])).ok, 'a container is accepted exactly when every element is')
if r.ok:
    must(r.value is not x, 'the stored container is a new one')
    must(isinstance(r.value, dict), 'a container of the declared class is stored')
    must(list(r.value) == ['k'] and same(r.value['k'], V(x['k'])), 'each value is the result of validating it')
must(untouched(), 'the container passed in stays as it was')
''', paths=300)
    # --------------------------------------------------------------- rejects
    for cls, want in (('Tuple', 'tuple'), ('List', 'list'), ('Set', 'set'), ('Dictionary', 'dict')):
        add('reject-' + cls, '''
p = %s('doc')
x = pick(sym('x'), [1], (1, 2), {1}, {'a': 1}, 'text', 5, None)
r = outcome(p.validate(None, x))
must(r.ok == isinstance(x, %s), 'without coercion exactly containers of the declared class are accepted')
if r.ok:
    must(isinstance(r.value, %s), 'a container of the declared class is stored')
    must(len(r.value) == len(x), 'nothing is lost')
''' % (cls, want, want), paths=300)
    # -------------------------------------------------------------- coercion
    for cls, want in (('Tuple', 'tuple'), ('List', 'list')):
        add('coerce-' + cls, '''
p = %s('doc', P('d'), coerce=True)
x, items = pick(([sym('a'), sym('b')], 0), ((sym('a'), sym('b')), 0), ({sym('a')}, 0), ([], 0), ((), 0),
                (sym('y', str), 1), (sym('i', int), 1), (None, 1), ({'k': sym('a')}, 1), (sym('l', list), 0),
                (sym('o', object), 1), ('text', 1))
items = [x] if items else list(x)
caller(x)
r = outcome(p.validate(None, x))
must(r.ok == all_valid(items), 'a container is accepted exactly when every element is')
if r.ok:
    must(type(r.value) is %s, 'a container of the declared class is stored')
    if %r:
        must(r.value is not x, 'the stored container is a new one')
    in_order(r.value, items)
must(untouched(), 'the container passed in stays as it was')
''' % (cls, want, want == 'list'), paths=500, K=3)
    add('coerce-Set', '''
p = Set('doc', P('d'), coerce=True)
x, items = pick(([sym('a')], 0), ((sym('a'),), 0), ({sym('a')}, 0), ([], 0), (sym('y', str), 1), (sym('i', int), 1),
                (sym('o', object), 1))
items = [x] if items else list(x)
caller(x)
r = outcome(p.validate(None, x))
must(r.ok == all_valid(items), 'a container is accepted exactly when every element is')
if r.ok:
    must(type(r.value) is set, 'a container of the declared class is stored')
    must(r.value is not x, 'the stored container is a new one')
    in_order(r.value, items)
must(untouched(), 'the container passed in stays as it was')
''', paths=500)
    add('coerce-dict', '''
p = Dictionary('doc', key_prop=P('d'), value_prop=Q('d'), coerce=True)
a = sym('a')
x = caller([('k', a)])
r = outcome(p.validate(None, x))
must(r.ok == (outcome(V('k')).ok and outcome(W(a)).ok), 'pairs are accepted exactly when key and value are')
if r.ok:
    must(type(r.value) is dict and len(r.value) == 1, 'pairs make a dictionary')
    for k in r.value:
        must(same(k, V('k')) and same(r.value[k], W(a)), 'keys and values are validated')
must(untouched(), 'the container passed in stays as it was')
''', paths=200)
    add('long', '''
n = pick(7, 12)
make = pick(List, Tuple, Set)
p = make('doc', Integer('d', cast=True), coerce=True, observe_mutations=True) if make is not Tuple else \\
    make('doc', Integer('d', cast=True), coerce=True)
x = [str(i) for i in range(n)]
r = p.validate(None, x)
must(len(r) == n, 'no element is skipped or added')
must(r == make._class_container(range(n)), 'elements are validated in order')
p = Dictionary('doc', key_prop=Integer('d', cast=True), value_prop=Integer('d', cast=True), coerce=pick(True, False))
r = p.validate(None, {str(i): str(i + 1) for i in range(n)})
must(len(r) == n, 'no entry is skipped or added')
for i in range(n):
    must(r[i] == i + 1, 'entries are validated')
r = outcome(p.validate(None, {str(i): ('x' if i == n - 1 else '1') for i in range(n)}))
must(not r.ok, 'one bad entry makes the dictionary bad')
x[pick(0, 5, n - 1)] = 'x'
must(not outcome(List('doc', Integer('d'), coerce=True).validate(None, x)).ok, 'one bad element makes the container bad')
''', paths=60)
    # -------------------------------------------------- stored on an instance
    add('stored', '''
class K(HasProperties):
    t = Tuple('d', P('d'))
    l = List('d', P('d'), observe_mutations=pick(True, False))
    s = Set('d', P('d'))
    d = Dictionary('d', key_prop=P('d'), value_prop=P('d'))
    n = List('d', List('d', P('d')))
a = sym('a')
assume(outcome(V(a)).ok)
k = K()
which = pick('l', 't', 's', 'd', 'n', 'keyword')
if which == 'l':
    x = [a]
    k.l = x
    must(k.l is not x and len(k.l) == 1 and same(k.l[0], V(a)), 'a validated copy is stored')
    x.append(5)
    must(len(k.l) == 1, 'later changes of the input do not reach the stored value')
elif which == 'keyword':
    x = [a]
    k = K(l=x)
    must(k.l is not x and len(k.l) == 1 and same(k.l[0], V(a)), 'a validated copy is stored')
    x.append(5)
    must(len(k.l) == 1, 'later changes of the input do not reach the stored value')
elif which == 't':
    k.t = (a, a)
    must(len(k.t) == 2 and same(k.t[0], V(a)) and same(k.t[1], V(a)), 'a validated copy is stored')
elif which == 's':
    x = {a}
    k.s = x
    must(k.s is not x and len(k.s) == 1 and V(a) in k.s, 'a validated copy is stored')
    x.add(5)
    must(len(k.s) == 1, 'later changes of the input do not reach the stored value')
elif which == 'd':
    x = {'k': a}
    assume(outcome(V('k')).ok)
    k.d = x
    must(k.d is not x and len(k.d) == 1 and V('k') in k.d and same(k.d[V('k')], V(a)), 'a validated copy is stored')
    x['z'] = 5
    must(len(k.d) == 1, 'later changes of the input do not reach the stored value')
else:
    i = [a]
    x = [i]
    k.n = x
    must(k.n is not x and k.n[0] is not i and same(k.n[0][0], V(a)), 'validated copies are stored at every level')
    i.append(5)
    x.append(5)
    must(len(k.n) == 1 and len(k.n[0]) == 1, 'later changes of the input do not reach the stored value')
''', paths=300)
    add('elements', '''
class K(HasProperties):
    l = List('d', H)
    t = Tuple('d', Instance('d', H))
    d = Dictionary('d', value_prop=H)
    i = List('d', Integer('d', min=0))
k = K()
h = H()
k.l = [h]
must(k.l[0] is h, 'instances of the element class are kept')
k.t = (h, h)
must(k.t[0] is h and k.t[1] is h, 'instances of the element class are kept')
k.d = {'a': h}
must(k.d['a'] is h, 'instances of the element class are kept')
k.l = [{}]
must(isinstance(k.l[0], H), 'elements are converted to the element class')
must(not outcome(setattr(k, 'l', [h, 5])).ok, 'one bad element makes the container bad')
must(not outcome(setattr(k, 'd', {'a': h, 'b': 5})).ok, 'one bad value makes the dictionary bad')
must(not outcome(setattr(k, 'i', pick([1, -1], [-1, 1], [-1], [1, 2, -3], ['a']))).ok, 'one bad element makes the container bad')
k.i = [1.0, 2, True]
must(k.i == [1, 2, 1] and type(k.i[0]) is int, 'elements are converted')
''', paths=200)
    # --------------------------------------------------------------- lengths
    add('lengths', '''
lo, hi = pick((None, None), (0, None), (1, None), (2, None), (None, 0), (None, 2), (1, 2), (2, 2), (0, 3))
kw = {}
if lo is not None:
    kw['min_length'] = lo
if hi is not None:
    kw['max_length'] = hi
make = pick(Tuple, List, Set)
class K(HasProperties):
    x = make('d', coerce=True, **kw)
k = K()
n = pick(0, 1, 2, 3)
k.x = list(range(n))
must(len(k.x) == n, 'the length is not changed')
r = outcome(k.validate())
fits = (lo is None or n >= lo) and (hi is None or n <= hi)
must(r.ok == fits, 'length limits are inclusive and enforced when the instance is validated')
if not r.ok:
    must(isinstance(r.error, ValidationError), 'a wrong length is a validation error')
    must(r.error.error_tuples[0].prop == 'x', 'the error names the property')
''', paths=800, wall=60)
    add('lengths-unknown', '''
lo, hi = sym('lo', int), sym('hi', int)
assume(not lo < 0)
assume(not hi < lo)
assume(not hi < 0)
which = pick('min', 'max', 'both')
kw = {}
if which != 'max':
    kw['min_length'] = lo
if which != 'min':
    kw['max_length'] = hi
class K(HasProperties):
    x = List('d', **kw)
k = K()
k.x = pick([], [1], [1, 2])
n = len(k.x)
r = outcome(k.validate())
fits = (which == 'max' or not n < lo) and (which == 'min' or not n > hi)
must(r.ok == fits, 'length limits are inclusive and enforced when the instance is validated')
''', paths=400)
    add('lengths-inner', '''
class K(HasProperties):
    x = List('d', List('d', Integer('d'), min_length=1, max_length=2))
    d = Dictionary('d', value_prop=Tuple('d', Integer('d'), max_length=1))
k = K()
k.x = pick([[1]], [[1, 2], [3]], [[]], [[1], []], [[1, 2, 3]], [])
k.d = pick({}, {'a': (1,)}, {'a': (1, 2)}, {'a': (), 'b': (1, 2)})
fits = True
for e in k.x:
    if len(e) < 1 or len(e) > 2:
        fits = False
for e in k.d:
    if len(k.d[e]) > 1:
        fits = False
must(outcome(k.validate()).ok == fits, 'length limits of inner containers are enforced')
''', paths=200)
    return S
