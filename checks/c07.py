"""Recursion guards detect re-entry, are released on every exit, and are never cleared by an inner call."""
from engine.explore import Scenario

ENDS = '''
def act(kind):
    "One way for the guarded operation to end."
    if kind == 'invalid':
        raise ValidationError('bad')
    if kind == 'false':
        return False
    if kind == 'key':
        raise KeyError('k')
    if kind == 'fatal':
        raise RuntimeError('r')
    if kind == 'interrupt':
        raise KeyboardInterrupt()
    if kind == 'exit':
        raise SystemExit()
    if kind == 'stop':
        raise GeneratorExit()
    return True
'''


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('rec', 14)
        S.append(Scenario(name, src, ends=True, **k))

    # ------------------------------------------------------------- validate
    add('validate-reentry', ENDS + '''
seen = []
class A(HasProperties):
    @validator
    def one(self):
        seen.append(self.validate())
        seen.append(self.validate())
        return act(kind)
    @validator
    def two(self):
        seen.append(self.validate())
kind = pick('true', 'invalid', 'false', 'key', 'fatal', 'interrupt', 'exit', 'stop')
a = A()
for round in (1, 2):
    seen[:] = []
    r = outcome(a.validate())
    must(r.ok == (kind == 'true'), 'every validation after the first runs like the first')
    must(len(seen) >= 2, 'the validators run in every outer validation')
    for s in seen:
        must(s is True, 'validation re-entered on the same object answers True')
    if kind in ('true', 'invalid', 'false', 'key'):
        must(len(seen) == 3, 'every validator ran once: the inner call did not run them again and did not clear the mark')
''')
    add('validate-property-reentry', ENDS + '''
seen = []
live = []
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        if live:
            seen.append(instance.validate())
            if len(seen) > 8:
                must(False, 'validation does not recurse')
            act(kind)
        return value
class A(HasProperties):
    p = P('doc')
    q = P('doc')
kind = pick('true', 'invalid', 'key', 'fatal', 'interrupt')
x = sym('x')
assume(x is not None)
assume(x is not undefined)
assume(x == x)
a = A()
a.p = x
a.q = x
live.append(1)
for round in (1, 2):
    seen[:] = []
    r = outcome(a.validate())
    must(r.ok == (kind == 'true'), 'every validation after the first runs like the first')
    must(len(seen) >= 1, 'the properties are checked in every outer validation')
    for s in seen:
        must(s is True, 'validation re-entered from a property answers True')
''')
    add('validate-cycle', '''
class A(HasProperties):
    @validator
    def v(self):
        ran.append(self)
        if len(ran) > 6:
            must(False, 'validating a cycle ends')
        if self is bad:
            raise ValidationError('bad')
A._props['next'] = Instance('doc', A, required=False)
A._props['next'].name = 'next'
A.next = A._props['next'].get_property()
ran = []
bad = None
a = A()
b = A()
a.next = b
b.next = a
bad = pick(None, 'a', 'b')
if bad == 'a':
    bad = a
if bad == 'b':
    bad = b
for round in (1, 2):
    for first, other in ((a, b), (b, a)):
        ran[:] = []
        r = outcome(first.validate())
        must(r.ok == (bad is None), 'a cycle is valid exactly when all its members are')
        if bad is not first:
            must(len(ran) == 2, 'every member of the cycle is checked once')
''')
    add('validate-observers', '''
class A(HasProperties):
    p = Property('doc')
    q = Property('doc')
    @validator('p')
    def v(self, change):
        if live:
            seen.append(self.validate())
            if len(seen) > 8:
                must(False, 'validation does not recurse')
            if end == 'interrupt':
                raise KeyboardInterrupt()
            if end == 'invalid':
                raise ValidationError('bad')
live = []
seen = []
end = pick('ok', 'interrupt', 'invalid')
x = sym('x')
assume(x is not None)
assume(x is not undefined)
assume(x == x)
a = A(p=x, q=1)
live.append(1)
for round in (1, 2):
    seen[:] = []
    r = outcome(a.validate())
    must(r.ok == (end == 'ok'), 'a later validation works like the first')
    must(seen == [True], 'validation re-entered from a callback answers True, once')
''')
    # --------------------------------------------------------- construction
    add('construct-reentry', ENDS + '''
seen = []
class A(HasProperties):
    p = Property('doc', required=False)
    q = Property('doc', required=False)
    r = Property('doc', required=True)
    @observer('p')
    def o(self, change):
        keep.append(self)
        seen.append(self.validate())
        act(kind)
    @observer('q')
    def o2(self, change):
        seen.append(self.validate())
keep = []
kind = pick('true', 'invalid', 'key', 'fatal', 'interrupt', 'exit')
r = outcome(A(p=1, q=2))
must(r.ok == (kind == 'true'), 'a failing callback makes construction fail')
for s in seen:
    must(s is True, 'validation during construction answers True')
if kind in ('true', 'invalid', 'key'):
    must(len(seen) == 2, 'an inner validation does not end the construction')
a = keep[0]
# the required r was never set, so a real validation has to complain
r = outcome(a.validate())
must(not r.ok, 'after construction, however it ended, validation runs')
kind = 'true'
seen[:] = []
a.r = 1
a.p = 3
must(a.validate() is True, 'after construction, however it ended, validation runs')
''')
    add('construct-errors', '''
hooked = []
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        if value == 'bad':
            self.error(instance, value)
        if value == 'stop':
            raise KeyboardInterrupt()
        return value
class A(HasProperties):
    p = P('doc', required=False)
    q = P('doc', required=False)
    def _error_hook(self, error_tuples):
        hooked.append(len(error_tuples))
    @observer('q')
    def keep_me(self, change):
        keep.append(self)
keep = []
r = outcome(A(q='x', p=pick('fine', 'bad', 'stop'), nothing=pick(0, 1)))
must(not r.ok, 'the unknown keyword is refused')
must(len(keep) == 1, 'q was set')
a = keep[0]
hooked[:] = []
# outside construction an error reports to the hook at once and is not stored
r = outcome(setattr(a, 'p', 'bad'))
must(not r.ok, 'a bad value is refused')
must(hooked == [1], 'after a failed construction errors are reported at once again')
''')
    # -------------------------------------------------------- serialization
    add('serialize-reentry', ENDS + '''
results = []
def ser(value, **kwargs):
    results.append(outcome(value.serialize()))
    results.append(outcome(value.serialize(include_class=False)))
    if len(results) > 8:
        must(False, 'serialization does not recurse')
    act(kind)
    return 'ok'
class A(HasProperties):
    pass
class B(HasProperties):
    me = Property('doc', serializer=ser)
    me2 = Property('doc', serializer=ser)
class C(B):
    pass
kind = pick('true', 'invalid', 'key', 'fatal', 'interrupt', 'exit')
b = pick(B, C)()
b.me = b
b.me2 = b
for round in (1, 2):
    results[:] = []
    r = outcome(b.serialize())
    must(r.ok == (kind == 'true'), 'a later serialization works like the first')
    must(len(results) == (4 if kind == 'true' else 2), 'the serializers are called in every round')
    for x in results:
        must(not x.ok, 'serializing a self-reference raises')
        must(isinstance(x.error, properties.SelfReferenceError), 'it raises a self-reference error')
''')
    add('serialize-cycle', '''
class A(HasProperties):
    n = Integer('doc', required=False)
A._props['next'] = Instance('doc', A, required=False)
A._props['next'].name = 'next'
A.next = A._props['next'].get_property()
A._props['all'] = List('doc', Instance('', A), required=False)
A._props['all'].name = 'all'
A.all = A._props['all'].get_property()
a = A()
b = A()
shape = pick('self', 'pair', 'list', 'share')
if shape == 'self':
    a.next = a
elif shape == 'pair':
    a.next = b
    b.next = a
elif shape == 'list':
    a.all = [b]
    b.all = [a]
else:
    a.next = b
    a.all = [b, b]
for round in (1, 2):
    for first in (a, b):
        r = outcome(first.serialize())
        if shape == 'share':
            must(r.ok, 'shared objects are serialized, they are no self-reference')
        elif shape == 'self' and first is b:
            must(r.ok, 'an object outside the cycle is serialized')
        else:
            must(not r.ok, 'serializing a cycle raises')
            must(isinstance(r.error, properties.SelfReferenceError), 'it raises a self-reference error')
# once the cycle is broken everything can be serialized
a.next = undefined
a.all = undefined
b.next = undefined
b.all = undefined
must(a.serialize(include_class=False) == {}, 'a failed serialization leaves the object ready')
must(b.serialize(include_class=False) == {}, 'a failed serialization leaves the object ready')
''')
    add('serialize-getter', ENDS + '''
class A(HasProperties):
    p = Property('doc')
    @Property('doc')
    def d(self):
        act(kind)
        if kind == 'again':
            got.append(outcome(self.serialize(save_dynamic=True)))
        return 1
got = []
kind = pick('true', 'again', 'key', 'interrupt', 'fatal')
a = A(p=1)
for round in (1, 2):
    got[:] = []
    r = outcome(a.serialize(save_dynamic=True))
    must(r.ok == (kind in ('true', 'again')), 'a later serialization works like the first')
    if kind == 'again':
        must(len(got) == 1, 'the getter ran once')
        must(not got[0].ok, 're-entering raises')
        must(isinstance(got[0].error, properties.SelfReferenceError), 'it raises a self-reference error')
kind = 'true'
must(a.serialize(save_dynamic=True, include_class=False) == {'p': 1, 'd': 1}, 'the object is ready afterwards')
''')
    # ------------------------------------------------------------- equality
    add('equal-reentry', ENDS + '''
seen = []
class P(Property):
    class_info = 'p'
    def equal(self, value_a, value_b):
        if len(seen) > 8:
            must(False, 'equality does not recurse')
        seen.append(properties.equal(value_a, value_b))
        seen.append(properties.equal(value_a, value_a))
        act(kind)
        return True
class A(HasProperties):
    me = P('doc')
class B(A):
    pass
kind = pick('true', 'key', 'fatal', 'interrupt', 'exit')
cls = pick(A, B)
a = cls()
b = cls()
with properties.listeners_disabled():
    a._backend['me'] = a
    b._backend['me'] = b
for round in (1, 2):
    seen[:] = []
    r = outcome(properties.equal(a, b))
    must(r.ok == (kind == 'true'), 'a later comparison works like the first')
    must(len(seen) == 2, 'the property is compared in every round')
    for s in seen:
        must(s is False, 'equality re-entered on the same object answers False')
    if r.ok:
        must(r.value is True, 'and the outer answer is the one of the properties')
must(properties.equal(a, a) is True, 'an object equals itself afterwards')
''')
    add('equal-cycle', '''
class A(HasProperties):
    n = Integer('doc', required=False)
A._props['next'] = Instance('doc', A, required=False)
A._props['next'].name = 'next'
A.next = A._props['next'].get_property()
def ring(n):
    a = A(n=n)
    b = A(n=n)
    a.next = b
    b.next = a
    return a
a = ring(1)
b = ring(1)
for round in (1, 2):
    r = outcome(properties.equal(a, b))
    must(r.ok, 'comparing cycles ends')
    must(r.value is False, 'recursive objects are not equal')
    must(properties.equal(a, a) is True, 'an object equals itself')
    must(properties.equal(a, a.next) is False, 'the members of a cycle are compared')
a.next = undefined
b.next = undefined
must(properties.equal(a, b) is True, 'after the cycle is broken they compare equal')
must(properties.equal(b, a) is True, 'after the cycle is broken they compare equal')
b.n = 2
must(properties.equal(a, b) is False, 'after the cycle is broken differences are seen')
''')
    add('equal-unequal-exit', '''
class A(HasProperties):
    n = Integer('doc', required=False)
class B(HasProperties):
    n = Integer('doc', required=False)
a = A(n=1)
other = pick('same', 'class', 'value', 'unset', 'foreign')
if other == 'same':
    b = a
elif other == 'class':
    b = B(n=1)
elif other == 'value':
    b = A(n=2)
elif other == 'unset':
    b = A()
else:
    b = sym('b')
    assume(not isinstance(b, HasProperties))
r = outcome(properties.equal(a, b))
must(r.ok, 'comparison does not raise')
must(properties.equal(a, A(n=1)) is True, 'the object is ready for the next comparison')
must(properties.equal(A(n=1), a) is True, 'the object is ready for the next comparison')
must(properties.equal(a, a) is True, 'the object is ready for the next comparison')
''')
    # ----------------------------------------------------------------- links
    add('link-reentry', ENDS + '''
ran = []
def transform(x):
    ran.append(x)
    if len(ran) > 8:
        must(False, 'a link does not recurse')
    if again:
        a.p = ('again', x)
    act(kind)
    return x
class A(HasProperties):
    p = Property('doc', required=False)
class B(HasProperties):
    p = Property('doc', required=False)
kind = pick('true', 'invalid', 'key', 'fatal', 'interrupt', 'exit')
again = pick(True, False)
a = A()
b = B()
link = properties.directional_link((a, 'p'), (b, 'p'), transform=transform)
x = sym('x')
r = outcome(setattr(a, 'p', 'first'))
must(len(ran) == 1, 'a change during an update does not start another one')
must(r.ok == (kind == 'true'), 'a failing transform shows')
if r.ok:
    must(b.p == 'first', 'the outer update is completed')
kind = 'true'
again = False
ran[:] = []
a.p = 'second'
must(ran == ['second'], 'the link is ready for the next change')
must(b.p == 'second', 'the link is ready for the next change')
''')
    add('link-target-failure', '''
class P(Property):
    class_info = 'p'
    def validate(self, instance, value):
        if value == 'bad':
            self.error(instance, value)
        if value == 'stop':
            raise KeyboardInterrupt()
        return value
class A(HasProperties):
    p = Property('doc', required=False)
class B(HasProperties):
    p = P('doc', required=False)
    @observer('p')
    def o(self, change):
        if change['value'] == 'late':
            raise RuntimeError('late')
a = A()
b = B()
link = properties.directional_link((a, 'p'), (b, 'p'))
v = pick('bad', 'stop', 'late')
r = outcome(setattr(a, 'p', v))
must(not r.ok, 'a failing target shows')
a.p = 'good'
must(b.p == 'good', 'the link is ready for the next change')
''')
    add('link-ring', '''
class A(HasProperties):
    p = Property('doc', required=False)
a = A()
b = A()
c = A()
x = sym('x')
assume(x is not None)
assume(x is not undefined)
how = pick('two-way', 'multi', 'ring')
if how == 'two-way':
    l1 = properties.directional_link((a, 'p'), (b, 'p'), change_only=False)
    l2 = properties.directional_link((b, 'p'), (a, 'p'), change_only=False)
elif how == 'multi':
    l1 = properties.link((a, 'p'), (b, 'p'), (c, 'p'), change_only=False)
else:
    l1 = properties.directional_link((a, 'p'), (b, 'p'), change_only=False)
    l2 = properties.directional_link((b, 'p'), (c, 'p'), change_only=False)
    l3 = properties.directional_link((c, 'p'), (a, 'p'), change_only=False)
for v in ('one', 'two'):
    a.p = v
    must(a.p == v, 'the source keeps its value')
    must(b.p == v, 'the linked value follows')
    if how != 'two-way':
        must(c.p == v, 'the linked value follows')
b.p = 'three'
if how != 'ring':
    must(a.p == 'three', 'the linked value follows')
else:
    must(a.p == 'three' and c.p == 'three', 'the linked value follows round the ring')
''', steps=200000)
    # ----------------------------------------------------------- decorator
    add('stop-recursion', ENDS + '''
ran = []
backup_kind = pick('value', 'callable', 'error', 'error-callable')
back = fn('back')
marker = sym('marker')
assume(not isinstance(marker, Exception))
assume(not callable(marker))
def backup_error(self, *args, **kwargs):
    return KeyError('again')
if backup_kind == 'value':
    backup = marker
elif backup_kind == 'callable':
    backup = back
elif backup_kind == 'error':
    backup = KeyError('again')
else:
    backup = backup_error
class A(object):
    @properties.utils.stop_recursion_with(backup)
    def work(self, x, **kw):
        ran.append((self, x, kw))
        if len(ran) > 8:
            must(False, 'a stopped method does not recurse')
        got.append(outcome(self.work('inner', k=2)))
        got.append(outcome(self.work('inner', k=2)))
        if self is a and other is not None:
            got.append(outcome(other.work('other', k=3)))
        act(kind)
        return ('result', x)
got = []
kind = pick('true', 'key', 'fatal', 'interrupt')
a = A()
other = None
for round in (1, 2):
    got[:] = []
    ran[:] = []
    r = outcome(a.work('outer', k=1))
    must(r.ok == (kind == 'true'), 'a later call works like the first')
    if r.ok:
        must(r.value == ('result', 'outer'), 'the outer call returns the result of the method')
    must(len(ran) == 1, 'the method runs once')
    must(ran[0][1] == 'outer' and ran[0][2] == {'k': 1}, 'with the arguments of the caller')
    must(len(got) == 2, 'both inner calls returned')
    for g in got:
        if backup_kind == 'value':
            must(g.ok and g.value is marker, 'a recursive call yields the backup')
        elif backup_kind == 'callable':
            assume(not isinstance(back(a, 'inner', k=2), Exception))
            must(g.ok, 'a recursive call yields what the backup answers')
            must(g.value is back(a, 'inner', k=2), 'a recursive call yields what the backup answers')
        else:
            must(not g.ok, 'a recursive call raises the backup error')
            must(isinstance(g.error, KeyError), 'a recursive call raises the backup error')
''')
    add('stop-recursion-objects', '''
class A(HasProperties):
    @properties.utils.stop_recursion_with('again')
    def work(self, other=None):
        ran.append(self)
        out = [self.work()]
        if other is not None:
            out += [other.work()]
            out += [other.work()]
        out += [self.work()]
        return out
ran = []
a = A()
b = A()
r = a.work(b)
must(r == ['again', ['again', 'again'], ['again', 'again'], 'again'], 'each object has its own guard, '
     'kept by the inner calls')
must(a.work() == ['again', 'again'] and b.work() == ['again', 'again'], 'all guards are released')
''')
    add('nested-objects', '''
# guards are per object: work on one object does not stop work on another
class A(HasProperties):
    n = Property('doc', required=False)
    child = Property('doc', required=False)
    @validator
    def check(self):
        ran.append(self)
        if self.child is not None and len(ran) < 6:
            self.child.validate()
ran = []
c = A(n=1)
a = A(child=c)
r = outcome(a.validate())
must(r.ok, 'nested validation works')
must(len(ran) == 2 and ran[0] is a and ran[1] is c, 'both objects are validated')
ran[:] = []
c.validate()
a.validate()
must(len(ran) == 3, 'and again afterwards')
''')
    return S
