"""Links propagate changes once and only while linked."""
from engine.explore import Scenario

HEAD = '''
told = []
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        return V(value)
V = fn('V')
class A(HasProperties):
    x = Property('d', required=False)
    y = Property('d', required=False)
class B(HasProperties):
    @properties.observer('v', change_only=True)
    def _told(self, change):
        told.append((self, change['value']))
    v = Property('d', required=False)
    w = Property('d', required=False)
class T(ext_name('traitlets.HasTraits')):
    t = None
    u = None
    def observe(self, handler, names=None, type='change'):
        watched.append((self, handler, names))
def put(self, name, value):
    """Assign a trait and tell its handlers."""
    setattr(self, name, value)
    for who, handler, names in list(watched):
        if who is self and (names == name or isinstance(names, list) and name in names):
            handler({'name': name, 'new': value, 'owner': self})
watched = []
def value(n):
    v = sym(n)
    assume(v is not undefined and v is not None)
    return v
'''


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 400)
        S.append(Scenario(name, HEAD + src, **k))

    add('history', '''
calls = []
def transform(x):
    calls.append(x)
    return F(x)
F = fn('F')
a, b = A(), B()
start = value('start')
b._backend['v'] = start
use = pick(True, False)
l = properties.directional_link((a, 'x'), (b, 'v'), transform=transform if use else None)
must(b.v is start and len(told) == 0 and len(calls) == 0, 'linking alone does not update')
live = True
expect = start
last = None
for step in range(3):
    op = pick('set', 'same', 'other', 'unlink', 'relink')
    n, c = len(told), len(calls)
    changed = False
    if op == 'set':
        x = step + 10
        changed = True
        a.x = x
        last = x
    elif op == 'same' and last is not None:
        a.x = last
    elif op == 'other':
        a.y = step
        b.w = step
    elif op == 'unlink':
        l.unlink()
        live = False
    else:
        l.relink()
        live = True
    if changed and live:
        got = F(last) if use else last
        assume(got is not undefined and got is not None)
        must(same(b.v, got), 'the target is set to the transformed source value')
        expect = got
        must(len(calls) == c + (1 if use else 0), 'the source value is transformed once')
    else:
        must(same(b.v, expect), 'nothing happens to the target otherwise')
        must(len(calls) == c and len(told) == n, 'nothing happens to the target otherwise')
    must(a.x is last, 'the source keeps its value')
''', paths=1500)
    add('once', '''
a, b = A(), B()
l = properties.directional_link((a, 'x'), (b, 'v'))
a.x = 1
must(len(told) == 1 and told[0][0] is b and told[0][1] == 1, 'the target is set once')
a.x = 2
must(len(told) == 2 and told[1][1] == 2, 'the target is set once for every change')
b.v = 5
must(a.x == 2, 'the source does not follow the target')
del a.x
must(b.v is None, 'deleting the source empties the target')
''')
    add('now', '''
a, b = A(), B()
x, y = 1, 2
a.x = x
b.v = y
told.clear()
now = pick(True, False)
use = pick(True, False)
l = properties.directional_link((a, 'x'), (b, 'v'), update_now=now, transform=(lambda q: [q]) if use else None)
if now:
    must(b.v == ([1] if use else 1) and len(told) == 1, 'the target is updated at creation when asked')
else:
    must(b.v == 2 and len(told) == 0, 'the target is not updated at creation unless asked')
must(a.x == 1, 'the source keeps its value')
a.x = 3
must(b.v == ([3] if use else 3), 'later changes arrive')
''')
    add('change-only', '''
sets = []
class Q(Property):
    def validate(self, instance, value):
        sets.append(value)
        return value
class C(HasProperties):
    v = Q('d', required=False)
a, c = A(), C()
only = pick(True, False, None)
l = properties.directional_link((a, 'x'), (c, 'v'), **({} if only is None else {'change_only': only}))
a.x = 1
must(len(sets) == 1, 'a change arrives')
a.x = 1
must(len(sets) == (2 if only is False else 1), 'setting the same value arrives only when asked for')
a.x = 2
must(len(sets) == (3 if only is False else 2), 'a change arrives')
''')
    add('self-target', '''
a = A()
l = properties.directional_link((a, 'x'), (a, 'y'), transform=lambda v: v + 1)
a.x = 1
must(a.x == 1 and a.y == 2, 'two properties of one instance are linked')
m = properties.directional_link((a, 'y'), (a, 'x'))
a.x = 5
must(a.y == 6, 'the target is set to the transformed source value')
''')
    add('refused-target', '''
class N(HasProperties):
    v = Integer('d', required=False)
a, n = A(), N()
l = properties.directional_link((a, 'x'), (n, 'v'))
a.x = 1
r = outcome(setattr(a, 'x', 'text'))
must(not r.ok and isinstance(r.error, ValidationError), 'a value the target rejects is reported')
must(n.v == 1, 'a value the target rejects is not stored in it')
a.x = 2
must(n.v == 2, 'later changes arrive')
''')
    add('other-link', '''
a, b, c = A(), B(), B()
l = properties.directional_link((a, 'x'), (b, 'v'))
m = properties.directional_link((a, 'x'), (c, 'v'), transform=lambda v: -v)
a.x = 1
must(b.v == 1 and c.v == -1, 'every link is served')
which = pick(l, m)
which.unlink()
which.unlink()
a.x = 2
if which is l:
    must(b.v == 1 and c.v == -2, 'unlinking stops one link only')
else:
    must(b.v == 2 and c.v == -1, 'unlinking stops one link only')
which.relink()
must(b.v in (1, 2) and c.v in (-1, -2), 'relinking alone does not update')
a.x = 3
must(b.v == 3 and c.v == -3, 'a link resumes when relinked')
''')
    # ---------------------------------------------------------- many items
    for n in (2, 3, 4):
        add('link-%d' % n, '''
items = [(B(), 'v') for i in range(%d)]
n = len(items)
l = properties.link(*items)
pairs = [(d.source, d.target) for d in l.dlinks]
must(len(pairs) == n * (n - 1), 'there is a directional link for every ordered pair')
for i in range(n):
    for j in range(n):
        if i != j:
            hits = [1 for s, t in pairs if s[0] is items[i][0] and t[0] is items[j][0] and s[1] == 'v' and t[1] == 'v']
            must(len(hits) == 1, 'there is a directional link for every ordered pair')
must(len(told) == 0, 'linking alone does not update')
for step in range(2):
    k = pick(*range(n)) if step == 0 else pick(0, n - 1)
    told.clear()
    items[k][0].v = step + 1
    for i in range(n):
        must(items[i][0].v == step + 1, 'every linked item follows')
        must(len([1 for o, v in told if o is items[i][0]]) == 1, 'every linked item changes once')
l.unlink()
told.clear()
k = pick(1, n - 1)
items[k][0].v = 10
for i in range(n):
    must(items[i][0].v == (10 if i == k else 2), 'unlinked items do not follow')
must(len(told) == 1, 'unlinked items do not follow')
l.relink()
must(len(told) == 1, 'relinking alone does not update')
k = pick(0, n - 2)
items[k][0].v = 20
for i in range(n):
    must(items[i][0].v == 20, 'relinked items follow again')
''' % n, paths=600)
    add('link-now', '''
items = [(B(), 'v') for i in range(3)]
items[0][0].v = 7
now = pick(True, False)
l = properties.link(*items, update_now=now)
for i in range(3):
    must(items[i][0].v == (7 if now or i == 0 else None), 'items are updated at creation only if asked')
''')
    add('link-every-set', '''
items = [(B(), 'v') for i in range(pick(2, 3))]
l = properties.link(*items, change_only=False)
k = pick(0, 1)
items[k][0].v = 1
for i in range(len(items)):
    must(items[i][0].v == 1, 'every linked item follows')
items[1 - k][0].v = 1
items[1 - k][0].v = 2
for i in range(len(items)):
    must(items[i][0].v == 2, 'every linked item follows')
''', ends=True)
    add('link-mixed', '''
a, b, t = A(), B(), T()
l = properties.link((a, 'x'), (b, 'v'), (t, 't'))
must(len(l.dlinks) == 6, 'there is a directional link for every ordered pair')
must(len(watched) == 2, 'traits are watched once for every target')
for who, handler, names in watched:
    must(who is t and (names == 't' or list(names) == ['t']), 'the linked trait is watched')
k = pick(0, 1, 2)
if k == 0:
    a.x = 3
elif k == 1:
    b.v = 3
else:
    put(t, 't', 3)
must(a.x == 3 and b.v == 3 and t.t == 3, 'every linked item follows')
must(len(told) == 1, 'every linked item changes once')
l.unlink()
put(t, 't', 4)
must(a.x == 3 and b.v == 3, 'unlinked items do not follow')
''')
    # ------------------------------------------------------------ refusals
    add('malformed', '''
a, b = A(), B()
good = (b, 'v')
bad = pick([a, 'x'], (a,), (a, 'x', 1), (a, 1), (a, None), (a, 'nothing'), ('x', a), (object(), 'x'), ({'x': 1}, 'x'),
           a, None, 'x', (None, 'x'), (), {'a': 1})
first = pick(True, False)
how = pick('directional', 'link', 'link3')
other = B()
if how == 'directional':
    r = outcome(properties.directional_link(*((bad, good) if first else (good, bad))))
elif how == 'link':
    r = outcome(properties.link(*((bad, good) if first else (good, bad))))
else:
    r = outcome(properties.link(good, (other, 'v'), bad))
must(not r.ok and isinstance(r.error, ValueError), 'a malformed item is refused')
b.v = 1
must(other.v is None, 'a refused link is not in force')
''')
    add('itself', '''
a, b = A(), B()
how = pick('directional', 'link', 'again', 'first again')
if how == 'directional':
    r = outcome(properties.directional_link((a, 'x'), (a, 'x'), update_now=pick(True, False)))
elif how == 'link':
    r = outcome(properties.link((a, 'x'), (a, 'x')))
elif how == 'again':
    r = outcome(properties.link((b, 'v'), (a, 'x'), (a, 'x')))
else:
    r = outcome(properties.link((a, 'x'), (b, 'v'), (a, 'x')))
must(not r.ok and isinstance(r.error, ValueError), 'linking an item to itself is refused')
a.x = 1
must(b.v is None, 'a refused link is not in force')
''')
    add('few', '''
a = A()
items = pick([], [(a, 'x')])
r = outcome(properties.link(*items))
must(not r.ok and isinstance(r.error, ValueError), 'fewer than two items are refused')
''')
    add('transform', '''
a, b = A(), B()
class Call(object):
    def __call__(self, x):
        return x
t = pick(3, 'x', [], lambda: 1, lambda x, y: 1, lambda x, y, z: 1, lambda x: x, Call(), None, str)
how = pick('create', 'set')
if how == 'create':
    r = outcome(properties.directional_link((a, 'x'), (b, 'v'), transform=t))
else:
    l = properties.directional_link((a, 'x'), (b, 'v'), transform=lambda x: [x])
    r = outcome(setattr(l, 'transform', t))
good = t is None or t is str or isinstance(t, Call) or not isinstance(t, (int, list)) and t != 'x' and t.__code__.co_argcount == 1
must(r.ok == good, 'transforms that are no functions of one argument are refused')
if not r.ok:
    must(isinstance(r.error, ValueError), 'transforms that are no functions of one argument are refused')
    a.x = 1
    if how == 'create':
        must(b.v is None, 'a refused link is not in force')
    else:
        must(b.v == [1], 'a refused transform does not replace the old one')
else:
    a.x = 1
    must(b.v == ('1' if t is str else 1), 'the target is set to the transformed source value')
''')
    add('link-transform', '''
a, b = A(), B()
t = pick(lambda x: x, str, 3)
r = outcome(properties.link((a, 'x'), (b, 'v'), transform=t))
must(not r.ok and isinstance(r.error, ValueError), 'a link of several items takes no transform')
a.x = 1
must(b.v is None, 'a refused link is not in force')
l = properties.link((a, 'x'), (b, 'v'), transform=None)
a.x = 2
must(b.v == 2, 'no transform is no reason to refuse')
''')
    add('traits', '''
a, t, s = A(), T(), T()
l = properties.directional_link((a, 'x'), (t, 't'))
a.x = 3
must(t.t == 3, 'a trait follows')
must(len(watched) == 0, 'the target is not watched')
m = properties.directional_link((s, 'u'), (a, 'y'), transform=lambda v: v * 2)
must(len(watched) == 1 and watched[0][0] is s, 'the source is watched')
put(s, 'u', 4)
must(a.y == 8, 'a property follows a trait')
put(s, 't', 5)
must(a.y == 8, 'other traits do not matter')
m.unlink()
put(s, 'u', 6)
must(a.y == 8, 'nothing happens while unlinked')
''')
    return S
