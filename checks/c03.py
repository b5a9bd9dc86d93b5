"""Which callbacks are delivered, and what disabling contexts suppress and restore."""
from engine.explore import Scenario

BASE = '''
V = fn('V')
EQ = fn('EQ')
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        return V(value)
    def equal(self, value_a, value_b):
        return EQ(value_a, value_b)
log = []
'''

WATCHED = BASE + '''
class A(HasProperties):
    p = P('doc')
    @validator('p')
    def cv(self, change):
        log.append('validate')
    @observer('p')
    def cs(self, change):
        log.append('observe_set')
    @observer('p', change_only=True)
    def cc(self, change):
        log.append('observe_change')
a = A()
b = A()
n = 0
def live(obj):
    "The callback modes currently delivered."
    log[:] = []
    obj.p = sym('fresh')
    out = tuple(sorted(log))
    log[:] = []
    del obj.p
    out2 = tuple(sorted(log))
    log[:] = []
    must(out == out2, 'setting and deleting notify the same kinds')
    return out
assume(sym('fresh') is not undefined)
assume(V(sym('fresh')) is not undefined)
ALL = ('observe_change', 'observe_set', 'validate')
def minus(have, gone):
    return tuple([m for m in have if m not in gone])
def kinds():
    return pick('all', 'validators', 'observers', 'one', 'two')
def ctx(kind):
    if kind == 'all':
        return listeners_disabled(), ALL
    if kind == 'validators':
        return validators_disabled(), ('validate',)
    if kind == 'observers':
        return observers_disabled(), ('observe_change', 'observe_set')
    if kind == 'one':
        return listeners_disabled('observe_set'), ('observe_set',)
    return listeners_disabled(['validate', 'observe_change']), ('validate', 'observe_change')
'''


def scenarios():
    S = []

    def add(name, src, **k):
        S.append(Scenario(name, src, **k))

    add('nested', WATCHED + '''
c1, g1 = ctx(kinds())
c2, g2 = ctx(kinds())
must(live(a) == ALL, 'every callback runs outside the contexts')
with c1:
    must(live(a) == minus(ALL, g1), 'exactly the disabled kinds are suppressed')
    with c2:
        must(live(a) == minus(minus(ALL, g1), g2), 'nested contexts add up')
        must(live(b) == minus(minus(ALL, g1), g2), 'every instance is affected alike')
    must(live(a) == minus(ALL, g1), 'leaving the inner context restores the outer one')
must(live(a) == ALL, 'leaving the outer context restores everything')
''', paths=900, steps=200000)
    add('reused', WATCHED + '''
c1, g1 = ctx(kinds())
c2, g2 = ctx(pick('all', 'validators', 'observers'))
with c1:
    with c1:
        must(live(a) == minus(ALL, g1), 'a context may be entered again while active')
    must(live(a) == minus(ALL, g1), 'leaving the inner use keeps the outer use')
must(live(a) == ALL, 'leaving the outer use restores everything')
with c2:
    with c1:
        must(live(a) == minus(minus(ALL, g1), g2), 'nested contexts add up')
    with c1:
        must(live(a) == minus(minus(ALL, g1), g2), 'nested contexts add up')
    must(live(a) == minus(ALL, g2), 'a reused context restores what was disabled when it was entered')
must(live(a) == ALL, 'a reused context restores what was disabled when it was entered')
''', paths=900, steps=200000)
    add('exception', WATCHED + '''
c1, g1 = ctx(kinds())
c2, g2 = ctx(pick('all', 'validators', 'observers'))
def boom():
    raise err('boom')
err = pick(ValidationError, KeyError, Exception, KeyboardInterrupt)
caught = False
with c2:
    try:
        with c1:
            must(live(a) == minus(minus(ALL, g1), g2), 'nested contexts add up')
            boom()
        must(False, 'the context swallowed an exception')
    except err:
        caught = True
    must(live(a) == minus(ALL, g2), 'an exception leaves the inner context only')
must(caught, 'the exception passes through the context')
must(live(a) == ALL, 'leaving restores everything')
''', paths=900, steps=200000)
    add('inside-callbacks', BASE + '''
class A(HasProperties):
    p = P('doc')
    q = P('doc')
    @observer('p')
    def cs(self, change):
        log.append('p')
        with mk():
            self.q = 1
        self.q = 2
    @observer('q')
    def cq(self, change):
        log.append('q')
kind = pick('all', 'validators', 'observers')
def mk():
    if kind == 'all':
        return listeners_disabled()
    if kind == 'validators':
        return validators_disabled()
    return observers_disabled()
a = A()
a.p = sym('x')
must(log == (['p', 'q', 'q'] if kind == 'validators' else ['p', 'q']), 'a context used in a callback restores the callbacks')
log[:] = []
a.p = sym('x')
must(log == (['p', 'q', 'q'] if kind == 'validators' else ['p', 'q']), 'a context used in a callback restores the callbacks')
''')
    add('library-contexts', BASE + '''
# the library disables callbacks itself while it builds and loads instances
FJ = fn('FJ', ValidationError)
VP = fn('VP', ValidationError, RuntimeError)
class J(Property):
    class_info = 'j'
    def validate(self, instance, value):
        return VP(value)
    @staticmethod
    def from_json(value, **kwargs):
        return FJ(value)
class A(HasProperties):
    p = P('doc')
    j = J('doc')
    @validator('p')
    def cv(self, change):
        log.append('validate')
    @observer('p')
    def cs(self, change):
        log.append('observe_set')
    @observer('p', change_only=True)
    def cc(self, change):
        log.append('observe_change')
    @observer('j')
    def jj(self, change):
        log.append('j')
a = A()
x = sym('x')
assume(x is not undefined)
assume(x is not None)
r = outcome(A.deserialize({'j': x, 'p': x}))
must(log == [], 'deserialization does not fire callbacks')
y = sym('y')
assume(y is not undefined)
assume(V(y) is not undefined)
a.p = y
must(sorted(log) == ['observe_change', 'observe_set', 'validate'], 'callbacks are enabled again whether or not deserialization succeeded')
''')
    add('failing-default', BASE + '''
VP = fn('VP', ValidationError, RuntimeError)
D = fn('D', ValidationError, KeyError)
on = False
class J(Property):
    class_info = 'j'
    def validate(self, instance, value):
        return VP(value) if on else value
def make():
    return D() if on else 1
class A(HasProperties):
    p = P('doc')
    j = J('doc', default=make)
    @observer('p')
    def cs(self, change):
        log.append('observe_set')
a = A()
on = True
log[:] = []
r = outcome(A())
must(log == [], 'defaults are set silently')
y = sym('y')
assume(y is not undefined)
a.p = y
must(log == ['observe_set'], 'callbacks are enabled again even if a default failed')
''')
    add('bad-contexts', BASE + '''
bad = pick('nonsense', ['validate', 'nonsense'], 3, {'validate': 1}, ('observe',))
r = outcome(listeners_disabled(bad))
must(not r.ok, 'an invalid kind is refused')
must(isinstance(r.error, TypeError), 'an invalid kind raises TypeError')
class A(HasProperties):
    p = P('doc')
    @observer('p')
    def cs(self, change):
        log.append('observe_set')
a = A()
a.p = sym('x')
must(log == ['observe_set'], 'nothing was disabled')
''')
    forms = '''
def names_form():
    return pick('one', 'list', 'tuple', 'set', 'everything', 'both')
form = names_form()
if form == 'one':
    names, watched = 'p', ['p']
elif form == 'list':
    names, watched = ['p'], ['p']
elif form == 'tuple':
    names, watched = ('q', 'p'), ['p', 'q']
elif form == 'set':
    names, watched = {'q'}, ['q']
elif form == 'everything':
    names, watched = everything, ['p', 'q', 'r']
else:
    names, watched = ['p', 'q'], ['p', 'q']
mode = pick('validate', 'observe_set', 'observe_change')
'''
    drive = '''
for nm in ['p', 'q', 'r']:
    log[:] = []
    x = sym('x' + nm)
    assume(x is not undefined)
    assume(V(x) is not undefined)
    setattr(a, nm, x)
    want = nm in watched
    must(len(log) == (1 if want else 0), 'a callback runs exactly for its names')
    if want:
        must(log[0][0] is a, 'the callback is called on the changed instance')
        must(log[0][1] == nm, 'the notification names the changed property')
        must(log[0][2] == mode, 'the callback runs in its mode')
        must(log[0][3] is V(x), 'the notification carries the new value')
        must(log[0][4] is (None if mode == 'validate' else V(x)), 'validators run before and observers after the store')
log[:] = []
nm = pick('p', 'q', 'r')
y = sym('y')
assume(y is not undefined)
assume(V(y) is not undefined)
setattr(a, nm, y)
want = nm in watched
if want and mode == 'observe_change':
    want = not EQ(V(sym('x' + nm)), V(y))
must(len(log) == (1 if want else 0), 'a callback runs exactly for its names and its mode')
'''
    add('class-registration', BASE + forms + '''
def deco():
    if mode == 'validate':
        return validator(names)
    if mode == 'observe_set':
        return observer(names)
    return observer(names, change_only=True)
class A(HasProperties):
    p = P('doc')
    q = P('doc')
    r = P('doc')
    @deco()
    def cb(self, change):
        log.append((self, change['name'], change['mode'], change['value'], getattr(self, change['name'])))
class B(A):
    pass
a = pick(A, B)()
''' + drive, paths=1500, wall=80, steps=200000)
    add('instance-registration', BASE + forms + '''
class A(HasProperties):
    p = P('doc')
    q = P('doc')
    r = P('doc')
a = A()
b = A()
def cb(self, change):
    log.append((self, change['name'], change['mode'], change['value'], getattr(self, change['name'])))
if mode == 'validate':
    validator(a, names, cb)
elif mode == 'observe_set':
    observer(a, names, cb)
else:
    observer(a, names, cb, change_only=True)
for nm in ['p', 'q', 'r']:
    setattr(b, nm, 1)
    setattr(A(), nm, 1)
must(log == [], 'a callback registered on one instance concerns that instance only')
''' + drive, paths=1500, wall=80, steps=200000)
    add('names-captured', BASE + """
names = pick(['p'], ('p',), {'p'})
names = caller(names)
mode = pick('observer', 'validator', 'instance')
class A(HasProperties):
    p = P('doc')
    q = P('doc')
    if mode == 'observer':
        @observer(names)
        def cb(self, change):
            log.append(change['name'])
    elif mode == 'validator':
        @validator(names)
        def cb(self, change):
            log.append(change['name'])
def free(self, change):
    log.append(change['name'])
a = A()
if mode == 'instance':
    observer(a, names, free)
must(untouched(), 'registration leaves the names of the caller alone')
if isinstance(names, list):
    names.append('q')
elif isinstance(names, set):
    names.add('q')
b = A() if mode != 'instance' else a
b.p = 1
b.q = 1
must(log == ['p'], 'a callback concerns the names it was registered with')
""")
    add('added-to-others', BASE + """
class A(HasProperties):
    p = P('doc')
    q = P('doc')
    r = P('doc')
    @observer('p')
    def cb(self, change):
        log.append(('cb', change['name']))
    @validator('q')
    def cv(self, change):
        log.append(('cv', change['name']))
def free(self, change):
    log.append(('free', change['name']))
a = A()
if pick(True, False):
    a.r = 1
observer(a, everything, free)
log[:] = []
a.p = 1
a.q = 1
a.r = 1
must(log == [('cb', 'p'), ('free', 'p'), ('cv', 'q'), ('free', 'q'), ('free', 'r')], 'a callback for every property joins the others')
""")
    add('several-on-one-name', BASE + '''
class A(HasProperties):
    p = P('doc')
    @observer('p')
    def one(self, change):
        log.append(1)
    @observer(['p'])
    def two(self, change):
        log.append(2)
    @observer(everything)
    def three(self, change):
        log.append(3)
def four(self, change):
    log.append(4)
a = A()
observer(a, 'p', four)
observer(a, ('p',), four)
a.p = sym('x')
must(log == [1, 2, 3, 4, 4], 'every registration is called, in the order of registration')
log[:] = []
c = A()
c.p = sym('x')
must(log == [1, 2, 3], 'instance registrations do not leak to other instances')
''')
    add('overridden-callback', BASE + '''
class A(HasProperties):
    p = P('doc')
    @observer('p')
    def cb(self, change):
        log.append('A')
class B(A):
    def cb(self, change):
        log.append('plain')
class C(A):
    @observer('p')
    def cb(self, change):
        log.append('C')
class D(A):
    @observer('p')
    def other(self, change):
        log.append('D')
k = pick(A, B, C, D)
a = k()
a.p = sym('x')
must(log == {A: ['A'], B: [], C: ['C'], D: ['A', 'D']}[k], 'subclasses replace or add callbacks by name')
''')
    add('bad-registration', BASE + '''
class A(HasProperties):
    p = P('doc')
a = A()
def cb(self, change):
    log.append(1)
bad = pick(3, [3], ('p', None), None)
which = pick('observer', 'validator')
if which == 'observer':
    r = outcome(observer(a, bad, cb))
else:
    r = outcome(validator(a, bad, cb))
must(not r.ok, 'names must be strings')
must(isinstance(r.error, TypeError), 'names must be strings')
a.p = sym('x')
must(log == [], 'nothing was registered')
''')
    add('renamed-deleted', BASE + '''
# callbacks follow the property whichever way it is changed
class A(HasProperties):
    p = P('doc')
    old = Renamed('p', warn=False)
    @observer('p')
    def cs(self, change):
        log.append((change['name'], change['value']))
a = A()
x = sym('x')
assume(x is not undefined)
how = pick('name', 'alias', 'setattr', 'init', 'delete', 'delete-alias', 'reset')
if how == 'init':
    a = A(p=x)
elif how == 'name':
    a.p = x
elif how == 'alias':
    a.old = x
elif how == 'setattr':
    setattr(a, 'p', x)
elif how == 'delete':
    del a.p
elif how == 'delete-alias':
    del a.old
else:
    a._reset('p')
must(len(log) == 1, 'one notification per change, whichever way it is made')
must(log[0][0] == 'p', 'the notification names the property')
''')
    return S
