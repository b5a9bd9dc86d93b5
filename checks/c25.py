"""Unique ids: uniqueness, flat serialization, resolution."""
from engine.explore import Scenario

HEAD = '''
import properties.extras
HasUID, Pointer = properties.extras.HasUID, properties.extras.Pointer
fresh = []
def new_id():
    fresh.append('fresh-%d' % len(fresh))
    return fresh[-1]
stub('uuid.uuid4', new_id)
class Box(HasProperties):
    inside = Instance('i', HasUID, required=False)
class N(HasUID):
    x = Instance('x', HasUID, required=False)
    y = Instance('y', HasUID, required=False)
    l = properties.List('l', Instance('', HasUID), required=False)
    d = properties.Dictionary('d', value_prop=Instance('', HasUID), required=False)
    box = Instance('b', Box, required=False)
    u = properties.Union('u', [Instance('', HasUID), Integer('')], required=False)
    n = Integer('n', required=False)
class Sub(N):
    more = Integer('m', required=False)
class Other(N):
    _INSTANCES = {}
live = HasUID._INSTANCES
def refs(o):
    out = [o.x, o.y] + list(o.l or []) + [o.d[k] for k in sorted(o.d or {})]
    if o.box is not None:
        out.append(o.box.inside)
    if isinstance(o.u, HasUID):
        out.append(o.u)
    return [r for r in out if r is not None]
def reach(o):
    seen = [o]
    for s in seen:
        for r in refs(s):
            if not any(r is t for t in seen):
                seen.append(r)
    return seen
def uid_of(o):
    return None if o is None else o.uid
'''


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 400)
        S.append(Scenario(name, HEAD + src, **k))

    # ---------------------------------------------------------- uniqueness
    add('construct', '''
a = N(uid='a')
must(live['a'] is a and a.uid == 'a', 'a constructed object is found by its id')
i = pick('a', 'b', '', 'A')
cls = pick(N, Sub)
extra = pick({}, {'n': 3})
r = outcome(cls(uid=i, **extra))
must(r.ok == (i != 'a'), 'an id in use is refused')
must(live['a'] is a and a.uid == 'a', 'the object that uses an id keeps it')
if r.ok:
    must(live[i] is r.value and r.value.uid == i, 'a constructed object is found by its id')
    must(outcome(N(uid=i)).ok is False, 'an id in use is refused')
else:
    must(isinstance(r.error, properties.ValidationError), 'an id in use is refused with a validation error')
c = cls()
must(c.uid not in ('a', i) and live[c.uid] is c and c.uid == fresh[-1], 'an object without an id gets a fresh one')
must(cls().uid != c.uid, 'an object without an id gets a fresh one')
''')
    add('construct-symbolic', '''
i, j = sym('i', str), sym('j', str)
for f in range(len(fresh), len(fresh) + 3):
    assume(i != 'fresh-%d' % f)
    assume(j != 'fresh-%d' % f)
a = N(uid=i)
r = outcome(N(uid=j))
must(r.ok == (not i == j), 'exactly the ids in use are refused')
if r.ok:
    must(live[i] is a and live[j] is r.value, 'a constructed object is found by its id')
else:
    must(live[i] is a and a.uid == i, 'the object that uses an id keeps it')
''')
    add('assign', '''
a, b = N(uid='a'), pick(N, Sub)(uid='b')
i = pick('a', 'b', 'c', '', 5, None, undefined)
r = outcome(setattr(b, 'uid', i))
must(r.ok == (i not in ('a', 5, None)), 'an id in use is refused')
must(live['a'] is a and a.uid == 'a', 'the object that uses an id keeps it')
if not r.ok:
    must(b.uid == 'b' and live['b'] is b, 'a refused id changes nothing')
    must(isinstance(r.error, ValueError), 'an id in use is refused with a validation error')
elif i in ('b', 'c', ''):
    must(b.uid == i and live[i] is b, 'a re-identified object is found by its id')
    must(outcome(setattr(a, 'uid', i)).ok is False and a.uid == 'a', 'an id in use is refused')
''')
    add('assign-twice', '''
a, b = N(uid='a'), N(uid='b')
b.uid = 'c'
r = outcome(setattr(a, 'uid', 'c'))
must(not r.ok and a.uid == 'a' and live['c'] is b, 'an id in use is refused')
del b.uid
c = N(uid='d')
del c.uid
must(all(k is not undefined for k in live), 'a deleted id is no id')
b.uid = 'e'
must(live['e'] is b and b.uid == 'e', 'a re-identified object is found by its id')
must(not outcome(setattr(c, 'uid', 'e')).ok, 'an id in use is refused')
''')
    add('validators-off', '''
a, b = N(uid='a'), N(uid='b')
with properties.listeners_disabled():
    a.n = 3
r = outcome(setattr(b, 'uid', 'a'))
must(not r.ok and live['a'] is a, 'an id in use is refused')
''')
    add('registries', '''
a = N(uid='a')
o = Other(uid='a')
must(o.uid == 'a' and Other._INSTANCES['a'] is o and live['a'] is a, 'every registry has ids of its own')
must(not outcome(Other(uid='a')).ok and not outcome(Sub(uid='a')).ok, 'an id in use is refused')
must(N.load('a') is a and Sub.load('a') is a and Other.load('a') is o, 'objects are loaded by their id')
must(N.load('zz') is None and Other.load('h') is None, 'unknown ids load nothing')
h = HasUID(uid='h')
must(live['h'] is h and N.load('h') is h and 'h' not in Other._INSTANCES, 'ids are registered in the nearest registry')
''')
    add('history', '''
objs = []
owner = {}
def step():
    op = pick('new', 'set')
    i = pick('a', 'b')
    if op == 'new':
        r = outcome(N(uid=i))
        must(r.ok == (i not in owner), 'exactly the ids in use are refused')
        if r.ok:
            objs.append(r.value)
            owner[i] = r.value
    elif objs:
        o = objs[pick(0, -1)]
        free = i not in owner or o.uid == i
        r = outcome(setattr(o, 'uid', i))
        if free:
            must(r.ok and o.uid == i, 'a free id is accepted')
            owner[i] = o
        elif owner[i] is not o:
            must(not r.ok, 'an id in use is refused')
for k in range(3):
    step()
for i in owner:
    if owner[i].uid == i:
        must(live[i] is owner[i], 'every object is found by its id')
for o in objs:
    must(live[o.uid] is o, 'every object is found by its id')
''')
    # --------------------------------------------------------- serializing
    CHECK = '''
seen = reach(root)
out = root.serialize(%(opts)s)
must(out['__root__'] == root.uid, 'the root is marked')
must(set(out) == set([o.uid for o in seen]) | {'__root__'}, 'every reachable object appears once, nothing else does')
for o in seen:
    e = out[o.uid]
    must(isinstance(e, dict) and e['uid'] == o.uid, 'every object has an entry under its id')
    must(e.get('x') == uid_of(o.x) and e.get('y') == uid_of(o.y), 'references are ids')
    if o.l is not None:
        must(e['l'] == [m.uid for m in o.l], 'references in lists are ids')
    if o.d is not None:
        must(e['d'] == {k: o.d[k].uid for k in o.d}, 'references in dictionaries are ids')
    if o.box is not None:
        must(e['box'].get('inside') == uid_of(o.box.inside), 'references in nested objects are ids')
    if isinstance(o.u, HasUID):
        must(e['u'] == o.u.uid, 'references in unions are ids')
    must(e.get('n') == o.n, 'values are recorded')
    %(cls)s
'''
    BACK = '''
ids = [o.uid for o in seen]
live.clear()
again = N.deserialize(out, trusted=True%(more)s)
must(again.uid == root.uid, 'the root is restored')
new = reach(again)
must([o.uid for o in new] == ids, 'every reachable object is restored')
for o, p in zip(seen, new):
    must(p is not o and type(p) is type(o), 'restored objects are new objects of the recorded class')
    must([m.uid for m in refs(p)] == [m.uid for m in refs(o)] and p.n == o.n, 'values are restored')
    must(live[p.uid] is p, 'a restored object is found by its id')
for p in new:
    for m in refs(p):
        must(any(m is q for q in new if q.uid == m.uid), 'references to one id give one object')
'''
    keep = "copy = {k: (dict(out[k]) if isinstance(out[k], dict) else out[k]) for k in out}\n"
    kept = '''must(set(out) == set(copy), 'the input dictionary is not altered')
for k in copy:
    must(out[k] == copy[k], 'the input dictionary is not altered')
'''
    chk = CHECK % {'opts': '', 'cls': "must(e['__class__'] == type(o).__name__, 'the class is recorded')"}
    full = chk + keep + BACK % {'more': ''} + kept
    for i, first in enumerate(('None', 'a', 'b')):
        add('two-nodes-%s' % first, '''
a, b = N(uid='a', n=1), Sub(uid='b')
a.x = %s
a.y = pick(None, a, b) if True else None
b.x = pick(None, a, b)
b.y = pick(None, a, b)
root = pick(a, b)
'''.replace('a.x = %s', ('a.x = ' + first) if first != 'None' else 'pass').replace('a.y = pick(None, a, b) if True else None', '''
t = pick(undefined, a, b)
a.y = t''').replace('b.x = pick(None, a, b)', 'b.x = pick(undefined, a, b)').replace('b.y = pick(None, a, b)', 'b.y = pick(undefined, a, b)') + full)
    for r in 'abc':
        add('three-nodes-' + r, '''
a, b, c = N(uid='a'), Sub(uid='b'), N(uid='c', n=3)
a.x = pick(undefined, b, c)
a.y = pick(undefined, c)
b.x = pick(undefined, a, b, c)
c.x = pick(undefined, a, b, c)
root = %s
''' % r + full)
    add('containers', '''
a, b = N(uid='a'), N(uid='b')
kind = pick('l', 'll', 'd', 'box', 'u', 'mixed')
t = pick(a, b)
if kind == 'l':
    a.l = [t]
elif kind == 'll':
    a.l = [t, b, t]
elif kind == 'd':
    a.d = {'k': t, 'm': b}
elif kind == 'box':
    a.box = Box(inside=t)
elif kind == 'u':
    a.u = t
else:
    a.x = t
    a.l = [b, a]
    a.box = Box(inside=t)
    a.d = {'k': t}
b.l = pick([], [a], [b, a])
root = a
''' + full)
    add('options', '''
inc = pick(True, False)
dyn = pick(True, False)
class D(N):
    @properties.Integer('d')
    def computed(self):
        return 4
a, b = D(uid='a'), D(uid='b')
a.x = b
b.x = a
heard = []
class P(Property):
    class_info = 'p'
    def serialize(self, value, **kwargs):
        heard.append(kwargs)
        return value
class E(D):
    p = P('p')
c = E(uid='c', p=1)
b.y = c
more = sym('more')
out = a.serialize(include_class=inc, save_dynamic=dyn, more=more)
must(set(out) == {'__root__', 'a', 'b', 'c'}, 'every reachable object appears once, nothing else does')
for k in 'abc':
    must(('__class__' in out[k]) == inc, 'the class is recorded unless refused')
    must(('computed' in out[k]) == dyn, 'dynamic values are recorded when asked')
must(len(heard) == 1 and heard[0]['more'] is more and heard[0]['include_class'] is inc and heard[0]['save_dynamic'] is dyn,
     'options reach the properties')
''')
    add('own-registry', '''
a, b = N(uid='a'), N(uid='b')
a.x = b
b.x = a
mine = {}
out = a.serialize(registry=mine)
must(out is mine, 'a given dictionary is filled')
must(list(mine) == ['__root__', 'a', 'b'], 'entries are in the order of their ids being met')
out2 = b.serialize()
must(out2 is not mine and out2['__root__'] == 'b' and set(out2) == {'__root__', 'a', 'b'}, 'serializing can be repeated')
must(mine['__root__'] == 'a', 'serializing can be repeated')
''')
    add('plain-root', '''
a, b = N(uid='a'), N(uid='b')
a.x = b
b.x = a
class H(HasProperties):
    one = Instance('o', HasUID)
    two = Instance('o', HasUID, required=False)
h = H(one=a, two=b)
out = h.serialize()
must(out['one']['__root__'] == 'a' and set(out['one']) == {'__root__', 'a', 'b'}, 'an object of a plain one is flat by itself')
must(out['two']['__root__'] == 'b' and set(out['two']) == {'__root__', 'a', 'b'}, 'an object of a plain one is flat by itself')
''')
    # ------------------------------------------------------- deserializing
    add('refused', '''
kind = pick('no-dict', 'no-root', 'unknown-root', 'unknown-ref', 'unknown-deep', 'used', 'used-deep', 'bad-entry', 'bad-value',
            'wrong-class', 'none-entry')
data = {'__root__': 'a', 'a': {'uid': 'a', 'x': 'b'}, 'b': {'uid': 'b', 'l': ['a', 'b']}}
owner = None
opts = {}
if kind == 'no-dict':
    data = pick(None, 'a', [], ('a',), 5)
elif kind == 'no-root':
    del data['__root__']
elif kind == 'unknown-root':
    data['__root__'] = 'zz'
elif kind == 'unknown-ref':
    data['a']['x'] = 'zz'
elif kind == 'unknown-deep':
    data['b']['l'] = ['a', 'zz']
elif kind == 'used':
    owner = N(uid='a')
elif kind == 'used-deep':
    owner = N(uid='b')
elif kind == 'bad-entry':
    data['b'] = pick('text', 5, [])
elif kind == 'bad-value':
    data['b']['n'] = 'text'
elif kind == 'none-entry':
    data['b'] = None
else:
    data['b']['__class__'] = 'Unknown'
    opts = {'strict': True}
before = {k: (dict(data[k]) if isinstance(data[k], dict) else data[k]) for k in data} if isinstance(data, dict) else data
r = outcome(N.deserialize(data, **opts))
class NN(N):
    x = Instance('x', N, required=False)
    l = properties.List('l', Instance('', N), required=False)
if kind in ('unknown-ref', 'unknown-deep', 'used-deep', 'bad-entry', 'bad-value', 'none-entry', 'wrong-class'):
    r = outcome(NN.deserialize(data, **opts))
must(not r.ok, 'unknown ids, ids in use and malformed data are refused')
if kind in ('no-dict', 'no-root', 'unknown-root', 'unknown-ref', 'unknown-deep', 'used', 'used-deep'):
    must(isinstance(r.error, ValueError), 'unknown ids and ids in use are value errors')
if owner is not None:
    must(live[owner.uid] is owner and owner.x is None and owner.n is None, 'an object that is in use is left alone')
if isinstance(data, dict):
    for k in before:
        must(data[k] == before[k], 'the input dictionary is not altered')
''')
    add('known-object', '''
w = N(uid='w', n=9)
data = {'__root__': 'a', 'a': {'uid': 'a', 'x': 'w', 'y': 'w'}}
class NN(N):
    x = Instance('x', N, required=False)
    y = Instance('x', N, required=False)
a = NN.deserialize(data)
must(a.x is w and a.y is w and w.n == 9, 'an id the data does not hold is that of the registered object')
must(N.deserialize({'__root__': 'w'}) is w, 'an id the data does not hold is that of the registered object')
''')
    add('shared', '''
class NN(N):
    x = Instance('x', N, required=False)
    y = Instance('x', N, required=False)
    l = properties.List('l', Instance('', N), required=False)
data = {'__root__': 'a', 'a': {'uid': 'a', 'x': 'b', 'y': 'b', 'l': ['b', 'a', 'b', 'c']}, 'b': {'uid': 'b', 'x': pick('a', 'b', 'c')},
        'c': {'uid': 'c', 'x': 'b', 'y': 'a', 'l': ['c', 'a', 'b', 'c']}}
root = pick(None, 'a', 'b', 'c')
for k in 'abc':
    data[k]['__class__'] = 'NN'
before = {k: (dict(data[k]) if isinstance(data[k], dict) else data[k]) for k in data}
opts = {} if root is None else {'root': root}
r = NN.deserialize(data, trusted=True, **opts)
must(r.uid == (root or 'a'), 'the root is the one asked for, or the marked one')
by = {}
for o in reach(r):
    must(o.uid not in by, 'every id gives one object')
    by[o.uid] = o
for k in by:
    e = data[k]
    o = by[k]
    if 'x' in e:
        must(o.x is by[e['x']], 'references to one id give one object')
    if 'y' in e and hasattr(o, 'y') and o.y is not None:
        must(o.y is by[e['y']], 'references to one id give one object')
    must(live[k] is o, 'a restored object is found by its id')
for k in before:
    must(data[k] == before[k], 'the input dictionary is not altered')
''')
    add('assert-valid', '''
class V(N):
    x = Instance('x', N, required=False)
    need = Integer('n', required=True)
class W(N):
    x = Instance('x', V, required=False)
    need = Integer('n', required=True)
data = {'__root__': 'a', 'a': {'uid': 'a', 'x': 'b'}, 'b': {'uid': 'b', 'x': 'b'}}
one, two = pick(True, False), pick(True, False)
if one:
    data['a']['need'] = 1
if two:
    data['b']['need'] = 2
ask = pick(True, False)
r = outcome(W.deserialize(data, assert_valid=ask))
must(r.ok == (not ask or one and two), 'validity of all objects is required when asked')
''')
    add('trusted', '''
a, b = Sub(uid='a', more=1), Sub(uid='b', more=2)
a.x = b
out = a.serialize()
live.clear()
tr = pick(True, False)
class NN(N):
    x = Instance('x', N, required=False)
r = NN.deserialize(out, trusted=tr)
must(type(r) is (Sub if tr else NN), 'recorded classes are used when trusted')
if not tr:
    must(type(r.x) is N, 'recorded classes are used when trusted')
''')
    add('options-back', '''
heard = []
class P(Property):
    class_info = 'p'
    def deserialize(self, value, **kwargs):
        heard.append(kwargs)
        return value
class NN(N):
    p = P('p', required=False)
    x = Instance('x', N, required=False)
class MM(NN):
    x = Instance('x', NN, required=False)
tr, st = pick(True, False), pick(True, False)
more = sym('more')
data = {'__root__': 'a', 'a': {'uid': 'a', 'x': 'b', 'p': 1}, 'b': {'uid': 'b', 'p': 2}}
if pick(True, False):
    data['b']['unknown'] = 1
r = outcome(MM.deserialize(data, trusted=tr, strict=st, more=more))
must(r.ok == (not st or 'unknown' not in data['b']), 'strictness concerns all objects')
if r.ok:
    must(len(heard) == 2, 'every value is deserialized once')
    for h in heard:
        must(h['trusted'] is tr and h['strict'] is st and h['more'] is more, 'options reach the properties')
''')
    # ------------------------------------------------------------- pointers
    add('pointer', '''
class T(HasUID):
    _INSTANCES = {}
    n = Integer('n', required=False)
    loaded = []
    @classmethod
    def validate_uid(cls, uid):
        if uid == 'bad':
            raise properties.ValidationError('bad uid')
        return True
t = T(uid='t')
load = pick(True, False)
class H(HasProperties):
    p = Pointer('p', T, load=load, required=False)
h = H()
v = pick('t', 'u', 'bad', t, 5, N(uid='n'))
r = outcome(setattr(h, 'p', v))
must(r.ok == (v == 't' or v == 'u' or v is t), 'a pointer is an instance or a valid id')
if r.ok:
    if v is t or (load and v == 't'):
        must(h.p is t, 'an id is loaded when asked')
    else:
        must(h.p == v, 'an id is kept')
else:
    must(h.p is None and isinstance(r.error, properties.ValidationError), 'another value is refused')
''')
    add('malformed-entry', '''
class M(HasUID):
    _INSTANCES = {}
    x = Instance('x', HasUID, required=False)
    n = Integer('n', required=False)
bad = pick(None, 'text', 5, [], [('uid', 'b')], (), 0, '', False)
where = pick('root', 'nested')
if where == 'root':
    data = {'__root__': 'b', 'b': bad}
else:
    data = {'__root__': 'a', 'a': {'uid': 'a', 'x': 'b', 'n': 1}, 'b': bad}
before = dict(data)
r = outcome(M.deserialize(data, trusted=pick(True, False), strict=pick(True, False)))
must(not r.ok and isinstance(r.error, ValueError), 'an entry that is no dictionary is refused')
must('b' not in M._INSTANCES and 'b' not in HasUID._INSTANCES, 'nothing is registered for it')
must(data == before, 'the data is left alone')
''')
    return S
