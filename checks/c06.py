"""Failures during construction and validation are collected and always raised."""
from engine.explore import Scenario

BASE = '''
hooked = []
class Base(HasProperties):
    def _error_hook(self, error_tuples):
        hooked.append(list(error_tuples))
def act(kind, name, obj):
    "A checking step that ends as requested."
    if kind == 'error':
        raise ValidationError('bad ' + name, 'invalid', name)
    if kind == 'plain-error':
        raise ValidationError('bad ' + name)
    if kind == 'two':
        raise ValidationError('both', None, None, None, _error_tuples=[
            properties.utils.ErrorTuple('one ' + name, 'a', name, None),
            properties.utils.ErrorTuple('two ' + name, 'b', name, None)])
    if kind == 'value':
        raise ValueError('v ' + name)
    if kind == 'key':
        raise KeyError('k ' + name)
    if kind == 'type':
        raise TypeError('t ' + name)
    if kind == 'attribute':
        raise AttributeError('a ' + name)
    if kind == 'fatal':
        raise RuntimeError('r ' + name)
    if kind == 'false':
        return False
    return True
def wanted(kind, name):
    "The messages a failing step must contribute."
    if kind == 'error' or kind == 'plain-error':
        return ['bad ' + name]
    if kind == 'two':
        return ['one ' + name, 'two ' + name]
    return []
GENERIC = {'value': ValueError, 'key': KeyError, 'type': TypeError, 'attribute': AttributeError}
def messages(err):
    return [t.message for t in err.error_tuples]
'''

VERDICT = '''
def verdict(r, kinds, false_messages):
    "Checks one finished construction or validation against the failing steps."
    want = []
    first = None
    for kind, name in kinds:
        want += wanted(kind, name)
        if kind == 'false':
            want += [false_messages]
        if first is None and kind in GENERIC:
            first = GENERIC[kind]
    if want:
        must(not r.ok, 'a validation error is raised')
        must(isinstance(r.error, ValidationError), 'validation errors win over other errors')
        got = messages(r.error)
        for m in want:
            must(m in got, 'the error carries the details of every failure')
        must(len(got) == len(want), 'the error carries the details of every failure once')
        must(len(hooked) == 1, 'the error hook is called once')
        must([t.message for t in hooked[0]] == got, 'the error hook receives the details')
    elif first is not None:
        must(not r.ok, 'another error is raised again')
        must(type(r.error) is first, 'the first other error is raised again')
        must(hooked == [], 'without validation errors the hook is not called')
    else:
        must(r.ok, 'nothing failed')
        must(hooked == [], 'without validation errors the hook is not called')
'''


def scenarios():
    S = []

    def add(name, src, **k):
        S.append(Scenario(name, BASE + src, **k))

    add('construction', '''
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        act(value, self.name, instance)
        return value
''' + VERDICT + '''
class A(Base):
    p = P('doc')
    q = P('doc')
    r = P('doc')
K = ('none', 'error', 'two', 'value', 'key', 'type', 'attribute')
k1 = pick('none', 'error', 'two', 'value', 'key', 'type', 'attribute')
k2 = pick('none', 'error', 'two', 'key')
k3 = pick('none', 'error', 'type')
# validation of defaults happens elsewhere
r = outcome(A(p=k1, q=k2, r=k3))
verdict(r, [(k1, 'p'), (k2, 'q'), (k3, 'r')], None)
if r.ok:
    must(r.value.p == k1 and r.value.q == k2 and r.value.r == k3, 'every keyword was set')
''', paths=700)
    add('construction-fatal', '''
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        act(value, self.name, instance)
        return value
class A(Base):
    p = P('doc')
    q = P('doc')
r = outcome(A(p=pick('none', 'error', 'key'), q='fatal'))
must(not r.ok, 'an unexpected error is not swallowed')
must(isinstance(r.error, (RuntimeError, ValidationError, KeyError)), 'an unexpected error is not swallowed')
r = outcome(A(p='fatal'))
must(not r.ok, 'an unexpected error is not swallowed')
must(type(r.error) is RuntimeError, 'an unexpected error is not swallowed')
''')
    add('unknown-keyword', '''
class A(Base):
    p = Property('doc')
    def method(self):
        return 1
x = sym('x')
r = outcome(A(nothing=x))
must(not r.ok, 'an unknown constructor keyword raises')
must(isinstance(r.error, AttributeError), 'an unknown constructor keyword raises AttributeError')
r = outcome(A(p=x, nothing=x))
must(not r.ok, 'an unknown constructor keyword raises whatever else is given')
r = outcome(A(nothing=undefined))
must(not r.ok, 'an unknown constructor keyword raises whatever its value')
r = outcome(A(nothing=None, p=None))
must(not r.ok, 'an unknown constructor keyword raises whatever its value')
''')
    add('callback-errors', '''
class A(Base):
    p = Property('doc')
    q = Property('doc')
    @validator('p')
    def v(self, change):
        act(k1, 'p', self)
    @observer('q')
    def o(self, change):
        act(k2, 'q', self)
''' + VERDICT + '''
k1 = pick('none', 'error', 'value', 'key')
k2 = pick('none', 'error', 'two', 'attribute')
r = outcome(A(p=1, q=2))
verdict(r, [(k1, 'p'), (k2, 'q')], None)
''')
    add('validation', VERDICT + '''
k1 = pick('none', 'error', 'plain-error', 'two', 'value', 'key', 'false')
k2 = pick('none', 'error', 'type', 'false')
k3 = pick('none', 'two', 'attribute')
class A(Base):
    @validator
    def one(self):
        return act(k1, 'one', self)
    @validator
    def two(self):
        return act(k2, 'two', self)
class B(A):
    @validator
    def three(self):
        return act(k3, 'three', self)
b = B()
hooked[:] = []
r = outcome(b.validate())
verdict(r, [(k1, 'one'), (k2, 'two'), (k3, 'three')], 'Validation failed')
''', paths=700)
    add('validation-fatal', '''
class A(Base):
    @validator
    def one(self):
        return act(pick('none', 'error', 'key'), 'one', self)
    @validator
    def two(self):
        return act('fatal', 'two', self)
a = A()
r = outcome(a.validate())
must(not r.ok, 'an unexpected error is not swallowed')
''')
    add('property-validation', VERDICT + '''
late = []
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        if late:
            act(value, self.name, instance)
        return value
class A(Base):
    p = P('doc')
    q = P('doc')
    r = P('doc')
    @validator
    def one(self):
        return act(k0, 'one', self)
k0 = pick('none', 'error', 'false', 'key')
k1 = pick('none', 'error', 'two')
k2 = pick('none', 'error', 'two')
k3 = pick('none', 'error')
a = A(p=k1, q=k2, r=k3)
late.append(1)
hooked[:] = []
r = outcome(a.validate())
verdict(r, [(k0, 'one'), (k1, 'p'), (k2, 'q'), (k3, 'r')], 'Validation failed')
''', paths=700)
    add('property-other-errors', '''
late = []
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        if late:
            act(value, self.name, instance)
        return value
class A(Base):
    p = P('doc')
    q = P('doc')
k1 = pick('none', 'value', 'key', 'type', 'attribute', 'fatal')
k2 = pick('none', 'value', 'key', 'fatal')
a = A(p=k1, q=k2)
late.append(1)
r = outcome(a.validate())
must(r.ok == (k1 == 'none' and k2 == 'none'), 'a failing property is never reported valid')
''')
    add('missing-and-invalid', '''
class A(Base):
    p = Property('doc')
    q = Property('doc')
    r = Property('doc', required=False)
    @validator
    def one(self):
        return act(k0, 'one', self)
k0 = pick('none', 'error', 'key')
a = A()
if pick(True, False):
    a.p = 1
    lacking = ['q']
else:
    lacking = ['p', 'q']
r = outcome(a.validate())
must(not r.ok, 'missing values make validation fail')
must(isinstance(r.error, ValidationError), 'missing values are validation errors')
got = [t.prop for t in r.error.error_tuples if t.reason == 'missing']
must(sorted(got) == lacking, 'the error names every missing property')
if k0 == 'error':
    must('bad one' in messages(r.error), 'the error carries the details of every failure')
must(len(hooked) == 1, 'the error hook is called once')
must(len(hooked[0]) == len(r.error.error_tuples), 'the error hook receives the details')
''')
    add('same-name-failures', '''
# failures that share the property name, the reason or the class are all reported
class C(HasProperties):
    n = Integer('doc')
    m = Integer('doc', required=False)
    @validator
    def chk(self):
        if self.m is not None:
            raise ValidationError('bad chk', 'invalid', 'n', self)
class A(Base):
    left = Instance('doc', C, default=C)
    n = Instance('doc', C, default=C)
    d = Dictionary('doc', value_prop=C, default=dict)
    @validator
    def one(self):
        if k1:
            raise ValidationError('bad one', 'invalid', 'n', self)
    @validator
    def two(self):
        if k2:
            raise ValidationError('bad two', 'invalid', 'n', self)
    @validator(['left', 'n'])
    def cb(self, change):
        if change['name'] in noisy:
            raise ValidationError('bad ' + change['name'], 'invalid', 'n', self)
noisy = []
k1, k2 = pick((False, False), (True, False), (True, True))
a = A()
where = pick('left', 'both', 'dict')
bad = []
if where == 'dict':
    a.left.n = a.n.n = 1
    a.d = {0: C()}
    bad = [a.d[0]]
elif where == 'left':
    a.n.n = 1
    bad = [a.left]
else:
    bad = [a.left, a.n]
    if pick(True, False):
        a.left.m = 1
cbs = pick([], ['left'], ['left', 'n'])
noisy.extend(cbs)
hooked[:] = []
r = outcome(a.validate())
must(not r.ok and is_kind(r.error, ValidationError), 'failures make validation fail')
tups = r.error.error_tuples
for b in bad:
    if (b is a.left and 'left' in cbs) or (b is a.n and 'n' in cbs):
        continue
    must(any([t.instance is b and t.prop == 'n' and t.reason == 'missing' for t in tups]),
         'each nested failure is reported')
    if b.m is not None:
        must(any([t.instance is b and t.message == 'bad chk' for t in tups]), 'each nested failure is reported')
if k1:
    must(any([t.message == 'bad one' for t in tups]), 'each validator failure is reported')
if k2:
    must(any([t.message == 'bad two' for t in tups]), 'each validator failure is reported')
for c in cbs:
    must(any([t.message == 'bad ' + c for t in tups]), 'each callback failure is reported')
must(len(hooked) == 1 and len(hooked[0]) == len(tups), 'the error hook receives the details of every failure')
''', paths=200)
    add('same-name-construction', '''
class C(Base):
    p = Property('doc')
    q = Property('doc')
    @validator('p')
    def cp(self, change):
        if 'p' in noisy:
            raise ValidationError('bad p', 'invalid', 'x', None)
    @validator('q')
    def cq(self, change):
        if 'q' in noisy:
            raise ValidationError('bad q', 'invalid', 'x', None)
        if 'Q' in noisy:
            raise TypeError('bad q')
noisy = []
noisy.extend(pick([], ['p'], ['q'], ['p', 'q'], ['p', 'Q'], ['Q']))
hooked[:] = []
r = outcome(C(**pick({'p': 1, 'q': 2}, {'q': 2, 'p': 1})))
must(r.ok == (not noisy), 'construction fails if and only if something failed')
if 'p' in noisy or 'q' in noisy:
    must(is_kind(r.error, ValidationError), 'validation errors come first')
    got = sorted([t.message for t in r.error.error_tuples])
    must(got == sorted(['bad ' + n for n in noisy if n in 'pq']), 'each failure is reported')
    must(len(hooked) == 1 and len(hooked[0]) == len(got), 'the error hook is called once')
elif noisy:
    must(is_kind(r.error, TypeError), 'the other error is raised')
    must(hooked == [], 'the error hook is not called')
''')
    add('validator-callbacks', VERDICT + '''
on = []
class A(Base):
    p = Property('doc', required=False)
    q = Property('doc', required=False)
    @validator('p')
    def vp(self, change):
        if on:
            act(k1, 'p', self)
    @validator('q')
    def vq(self, change):
        if on:
            act(k2, 'q', self)
k1 = pick('none', 'error', 'two')
k2 = pick('none', 'error', 'two')
a = A(p=1, q=2)
on.append(1)
hooked[:] = []
r = outcome(a.validate())
verdict(r, [(k1, 'p'), (k2, 'q')], None)
''')
    add('nested-construction', '''
class C(Base):
    n = Integer('doc')
class A(Base):
    c = Instance('doc', C)
    l = List('doc', prop=C, required=False)
how = pick('dict', 'list')
if how == 'dict':
    r = outcome(A(c={'n': 'bad'}))
else:
    r = outcome(A(l=[{'n': 'bad'}]))
must(not r.ok, 'a failing nested construction makes the construction fail')
must(isinstance(r.error, ValidationError), 'a failing nested construction is a validation error')
''')
    add('own-properties-of-error', '''
# what a validation error reports
class A(Base):
    p = Property('doc')
a = A()
m = sym('m', str)
reason = pick(None, sym('reason', str), 3)
prop = pick(None, sym('prop', str), 4)
inst = pick(None, a, 5)
r = outcome(ValidationError(m, reason, prop, inst))
bad = reason is 3 or prop is 4 or inst is 5
must(r.ok == (not bad), 'details of the wrong type are refused')
if r.ok:
    e = r.value
    must(len(e.error_tuples) == 1, 'one detail')
    t = e.error_tuples[0]
    must(t.message is m and t.reason is reason and t.prop is prop and t.instance is inst, 'the details are those given')
    must(len(hooked) == (1 if inst is a else 0), 'outside of a validation the hook is called at once')
''')
    add('hook-during', '''
# inside a running construction or validation the hook waits for the summary
seen = []
class A(Base):
    p = Property('doc')
    @validator('p')
    def v(self, change):
        seen.append(len(hooked))
        try:
            raise ValidationError('inner', 'invalid', 'p', self)
        except ValidationError:
            seen.append(len(hooked))
            raise
r = outcome(A(p=1))
must(not r.ok, 'the construction fails')
must(seen == [0, 0], 'the hook is called once, with the summary')
must(len(hooked) == 1, 'the hook is called once, with the summary')
must([t.message for t in hooked[0]] == ['inner'], 'the hook receives the details')
''')
    add('failing-hook', '''
class A(HasProperties):
    p = Integer('doc')
    def _error_hook(self, error_tuples):
        raise RuntimeError('hook')
how = pick('construct', 'validate')
if how == 'construct':
    r = outcome(A(p='bad'))
else:
    a = A()
    r = outcome(a.validate())
    must(not getattr(a, '_getting_validated', False), 'the object is ready for the next validation')
must(not r.ok, 'a failing hook is not swallowed')
must(isinstance(r.error, RuntimeError), 'a failing hook is not swallowed')
''')
    add('validation-details', '''
# every validation failure names its property and the instance it belongs to
V = fn('V', ValidationError)
late = []
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        return late[0] if late else value
    def equal(self, value_a, value_b):
        return value_a is value_b
class A(Base):
    p = P('doc')
    q = Property('doc', required=False)
    @properties.validator('q')
    def alter(self, change):
        if kind in ('alter', 'both'):
            change['value'] = 'altered'
kind = pick('stored', 'alter', 'missing', 'both')
a = A()
if kind != 'missing':
    a.p = 'first'
a._backend['q'] = 'other'
del hooked[:]
if kind in ('stored', 'both'):
    late.append('else')
r = outcome(a.validate())
must(not r.ok and isinstance(r.error, ValidationError), 'the failure is a validation error')
tups = r.error.error_tuples
want = {'stored': ['p'], 'alter': ['q'], 'missing': ['p'], 'both': ['p', 'q']}[kind]
must(sorted([t.prop for t in tups]) == want, 'each failure names its property')
must(all([t.instance is a for t in tups]), 'each failure names its instance')
must(all([t.reason == ('missing' if kind == 'missing' else 'invalid') for t in tups]), 'each failure names its reason')
must(len(hooked) == 1, 'the error hook is called once')
''')
    add('wrong-verdict-details', '''
class W(Property):
    class_info = 'w'
    def assert_valid(self, instance, value=None):
        return pick(False, 0, None)
class A(Base):
    w = W('doc')
a = A(w=1)
r = outcome(a.validate())
must(not r.ok and isinstance(r.error, ValidationError), 'a property that is not valid makes validation fail')
must([t.prop for t in r.error.error_tuples] == ['w'], 'the failure names its property')
must(r.error.error_tuples[0].instance is a, 'the failure names its instance')
''')
    return S
