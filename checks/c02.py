"""Order, selection and content of change notifications, for all previous/new value combinations."""
from engine.explore import Scenario

BASE = '''
V = fn('V')
EQ = fn('EQ')
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        return V(value)
    def equal(self, value_a, value_b):
        return EQ(value_a, value_b)
log = []
def backing(obj):
    return obj.p
'''

CBS = '''
class A(HasProperties):
    p = P('doc')
    q = P('doc')
    @validator('p')
    def c1(self, change):
        log.append(('validate', change['name'], change['previous'], change['value'], change['mode'], self.p))
        tampering(change)
    @observer('p')
    def c2(self, change):
        log.append(('observe_set', change['name'], change['previous'], change['value'], change['mode'], self.p))
        tampering(change)
    @observer('p', change_only=True)
    def c3(self, change):
        log.append(('observe_change', change['name'], change['previous'], change['value'], change['mode'], self.p))
        tampering(change)
'''


def scenarios():
    S = []

    def add(name, src, **k):
        S.append(Scenario(name, BASE + src, **k))

    drive = '''
a = A()
x = sym('x')
y = sym('y')
first = pick('unset', 'set')
second = pick('set', 'undefined', 'delete')
if first == 'set':
    assume(V(x) is not undefined)
    assume(V(x) is not None)
    assume(x is not undefined)
    a.p = x
    prev = V(x)
else:
    prev = undefined
seen = None if prev is undefined else prev
if second == 'set':
    assume(y is not undefined)
    assume(V(y) is not None)
new = V(y) if second == 'set' else undefined
now = None if new is undefined else new
log[:] = []
if second == 'set':
    a.p = y
elif second == 'undefined':
    a.p = undefined
else:
    del a.p
must(a.p is now, 'the new value is stored')
modes = [e[0] for e in log]
must(modes.count('validate') == 1, 'validator callbacks run exactly once')
must(modes.count('observe_set') == 1, 'set observers run exactly once per assignment')
if prev is undefined and new is undefined:
    differs = False
elif prev is undefined or new is undefined:
    differs = True
else:
    differs = not EQ(prev, new)
must(modes.count('observe_change') == (1 if differs else 0), 'change-only observers run exactly when the value differs')
must(modes[0] == 'validate', 'validators run before observers')
for e in log:
    must(e[1] == 'p', 'the notification names the property')
    must(e[2] is prev, 'the notification carries the previous value')
    must(e[3] is new, 'the notification carries the new value')
    must(e[4] == e[0], 'the notification carries the mode being delivered')
    if e[0] == 'validate':
        must(e[5] is seen, 'validators run before the value changes')
    else:
        must(e[5] is now, 'observers run after the value changed')
'''
    add('honest', '''
def tampering(change):
    pass
''' + CBS + drive, paths=900)
    add('tampering', '''
how = pick('name', 'previous', 'mode')
t = sym('t')
def tampering(change):
    change[how] = t
''' + CBS + drive, paths=1500, wall=60)
    add('tamper-delete', '''
how = pick('name', 'previous', 'mode')
def tampering(change):
    change.pop(how)
''' + CBS + drive, paths=1500, wall=60)
    add('veto', '''
class A(HasProperties):
    p = P('doc')
    @validator('p')
    def c1(self, change):
        log.append('v')
        if veto:
            raise err('veto')
    @observer('p')
    def c2(self, change):
        log.append('s')
    @observer('p', change_only=True)
    def c3(self, change):
        log.append('c')
veto = False
err = pick(ValidationError, ValueError, KeyError, RuntimeError)
a = A()
x = sym('x')
y = sym('y')
how = pick('set', 'delete')
start = pick(True, False)
if start:
    a.p = x
before = a.p
log[:] = []
veto = True
r = None
if how == 'set':
    r = outcome(setattr(a, 'p', y))
else:
    r = outcome(delattr(a, 'p'))
must(not r.ok, 'a veto reaches the caller')
must(isinstance(r.error, err), 'the error of the callback is raised')
must(log == ['v'], 'a veto prevents the observers')
must(a.p is before, 'a veto prevents the store')
''')
    add('replaced-value', '''
z = sym('z')
class A(HasProperties):
    p = P('doc')
    @validator('p')
    def c1(self, change):
        if active:
            change['value'] = z
    @observer('p')
    def c2(self, change):
        log.append(('s', change['previous'], change['value'], self.p))
    @observer('p', change_only=True)
    def c3(self, change):
        log.append(('c', change['previous'], change['value'], self.p))
active = False
a = A()
x = sym('x')
y = sym('y')
assume(x is not undefined)
assume(V(x) is not undefined)
assume(z is not None)
a.p = x
prev = V(x)
log[:] = []
active = True
a.p = y
now = None if z is undefined else z
must(a.p is now, 'the validator callback decides what is stored')
if z is undefined:
    differs = True
else:
    differs = not EQ(prev, z)
kinds = [e[0] for e in log]
must(kinds.count('s') == 1, 'set observers run exactly once')
must(kinds.count('c') == (1 if differs else 0), 'change-only observers compare with what was stored')
for e in log:
    must(e[1] is prev, 'previous value')
    must(e[2] is z, 'observers are told the value actually stored')
    must(e[3] is now, 'observers run after the store')
''')
    add('several-callbacks', '''
class A(HasProperties):
    p = P('doc')
    @validator('p')
    def v1(self, change):
        log.append('v1')
    @observer('p')
    def s1(self, change):
        log.append('s1')
    @observer('p', change_only=True)
    def o1(self, change):
        log.append('o1')
def v2(self, change):
    log.append('v2')
def s2(self, change):
    log.append('s2')
def o2(self, change):
    log.append('o2')
a = A()
validator(a, 'p', v2)
observer(a, 'p', s2)
observer(a, 'p', o2, change_only=True)
x = sym('x')
assume(V(x) is not undefined)
assume(x is not undefined)
a.p = x
must(sorted(log) == ['o1', 'o2', 's1', 's2', 'v1', 'v2'], 'every callback runs exactly once')
must(sorted(log[:2]) == ['v1', 'v2'], 'every validator runs before any observer')
log[:] = []
y = sym('y')
assume(V(y) is not undefined)
assume(y is not undefined)
a.p = y
want = ['s1', 's2', 'v1', 'v2'] if EQ(V(x), V(y)) else ['o1', 'o2', 's1', 's2', 'v1', 'v2']
must(sorted(log) == want, 'every callback of the mode runs exactly once')
''')
    add('own-equality', '''
class A(HasProperties):
    p = P('doc')
    @observer('p', change_only=True)
    def o1(self, change):
        log.append('o1')
a = A()
x = sym('x')
assume(x is not undefined)
assume(V(x) is not undefined)
a.p = x
log[:] = []
a.p = x
must(len(log) == (0 if EQ(V(x), V(x)) else 1), 'sameness is decided by the equality of the property')
''')
    add('silent-init', '''
class A(HasProperties):
    p = P('doc')
    @validator('p')
    def v1(self, change):
        log.append('v1')
    @observer('p')
    def s1(self, change):
        log.append('s1')
x = sym('x')
a = A(p=x)
must(log == ['v1', 's1'], 'constructor keywords notify once')
''')
    return S
