"""Observed containers announce every mutation."""
from engine.explore import Scenario

LIST = [('append', '(3,)'), ('extend', '([3, 1],)'), ('insert', '(0, 3)'), ('pop', '()'), ('pop', '(0,)'),
        ('remove', '(1,)'), ('reverse', '()'), ('sort', '()'), ('clear', '()'), ('__delitem__', '(0,)'),
        ('__setitem__', '(0, 7)'), ('__setitem__', '(slice(0, 1), [7, 8])'),
        ('append', '(1,)'), ('extend', '([],)'), ('insert', '(2, 1)'), ('insert', '(-1, 3)'), ('pop', '(-1,)'),
        ('remove', '(2,)'), ('__delitem__', '(-1,)'), ('__delitem__', '(slice(0, 2),)'), ('__setitem__', '(1, 2)'),
        ('__setitem__', '(-1, 1)')]
LIST_I = [('__iadd__', '([3],)'), ('__imul__', '(2,)')]
SET = [('add', '(3,)'), ('clear', '()'), ('difference_update', '({1},)'), ('discard', '(1,)'),
       ('intersection_update', '({1},)'), ('remove', '(1,)'), ('symmetric_difference_update', '({1, 3},)'),
       ('update', '({3, 4},)'), ('add', '(1,)'), ('discard', '(9,)'), ('difference_update', '({9},)'),
       ('intersection_update', '({1, 2},)'), ('symmetric_difference_update', '(set(),)'), ('update', '({1},)'),
       ('update', '({3}, {4})'), ('update', '([3, 1],)')]
SET_I = [('__iand__', '({1},)'), ('__ior__', '({3},)'), ('__isub__', '({1},)'), ('__ixor__', '({1, 3},)')]
DICT = [('__setitem__', "('a', 7)"), ('__setitem__', "('c', 7)"), ('__delitem__', "('a',)"), ('clear', '()'),
        ('pop', "('a',)"), ('pop', "('z', None)"), ('popitem', '()'), ('setdefault', "('c', 5)"),
        ('update', "({'c': 5},)"), ('setdefault', "('a', 5)"), ('setdefault', "('c',)"), ('pop', "('b', None)"),
        ('__setitem__', "('a', 1)"), ('update', "({},)"), ('update', "({'a': 1},)"), ('update', "([('c', 5)],)")]
DICT_I = [('__ior__', "({'c': 5},)")]
LIST_O = [('__add__', '([3],)'), ('__mul__', '(2,)'), ('__rmul__', '(2,)'), ('copy', '()')]
SET_O = [('copy', '()'), ('difference', '({1},)'), ('intersection', '({1},)'), ('symmetric_difference', '({1, 3},)'),
         ('union', '({3},)'), ('__and__', '({1},)'), ('__or__', '({3},)'), ('__sub__', '({1},)'), ('__xor__', '({1, 3},)'),
         ('__rand__', '({1},)'), ('__ror__', '({3},)'), ('__rsub__', '({1, 3},)'), ('__rxor__', '({1, 3},)')]
DICT_O = [('copy', '()'), ('__or__', "({'c': 5},)"), ('__ror__', "({'c': 5},)")]

KINDS = {
    'List': ('List', '[1, 2]', 'list', LIST, LIST_I, LIST_O),
    'Set': ('Set', '{1, 2}', 'set', SET, SET_I, SET_O),
    'Dictionary': ('Dictionary', "{'a': 1, 'b': 2}", 'dict', DICT, DICT_I, DICT_O),
}

DEFS = '''
seen = []
ok = [True]
class K(HasProperties):
    x = %(prop)s('d', observe_mutations=True)
    y = %(prop)s('d', observe_mutations=True)
    @validator('x')
    def _check(self, change):
        seen.append(('validate', change['value']))
        if not ok[0]:
            raise ValueError('refused')
    @observer('x')
    def _note(self, change):
        seen.append(('observe', change['value'], change['previous']))
k = K()
k.x = %(start)s
old = k.x
del seen[:]
'''

CHECK = '''
name, args = pick(%(ops)s)
plain = %(cls)s(%(start)s)
want = getattr(plain, name)(*args)
ok[0] = pick(True, False)
r = outcome(getattr(old, name)(*args))
if ok[0]:
    must(r.ok, 'an accepted mutation succeeds')
    if want is None:
        must(r.value is None, 'the method answers what the plain one answers')
    elif want is not plain:
        must(r.value == want, 'the method answers what the plain one answers')
    must(k.x == plain, 'the mutation reaches the property')
    must(len(seen) == 2 and seen[0][0] == 'validate' and seen[1][0] == 'observe',
         'validation and notification run once')
    must(seen[0][1] == plain and seen[1][1] == plain, 'the mutated copy is what is validated and announced')
    must(seen[1][2] is old, 'the previous value is announced')
    must(old == %(start)s, 'the mutation is applied to a copy')
    must(k.x is not old, 'the copy is assigned')
    # the new value is observed in turn
    now = k.x
    getattr(now, %(next)s)(*%(nextargs)s)
    must(len(seen) == 4, 'the new value announces its mutations as well')
    must(k.x is not now, 'the mutation is applied to a copy')
else:
    must(not r.ok and isinstance(r.error, ValueError), 'a rejected mutation raises')
    must(k.x is old, 'a rejected mutation leaves the stored value')
    must(old == %(start)s, 'a rejected mutation leaves the stored value unchanged')
    must(len(seen) == 1, 'nobody is told about a rejected mutation')
    ok[0] = True
    del seen[:]
    getattr(old, %(next)s)(*%(nextargs)s)
    must(len(seen) == 2, 'the stored value still announces its mutations')
    must(k.x is not old and old == %(start)s, 'the mutation is applied to a copy')
'''


def scenarios():
    S = []

    def add(name, src, **k):
        S.append(Scenario(name, src, **k))

    for kn, (prop, start, cls, muts, iops, ops) in KINDS.items():
        d = dict(prop=prop, start=start, cls=cls)
        d['next'], d['nextargs'] = {'list': ("'append'", '(9,)'), 'set': ("'add'", '(9,)'),
                                    'dict': ("'__setitem__'", "('q', 9)")}[cls]

        def table(l):
            return ', '.join("('%s', %s)" % x for x in l)
        for i in range(0, len(muts), 5):
            add('mutators-%s-%d' % (kn, i // 5), (DEFS + CHECK) % dict(d, ops=table(muts[i:i + 5])), paths=200, ends=True)
        # errors of the method itself
        bad = {'list': "('remove', (9,)), ('pop', (5,)), ('__setitem__', (5, 1)), ('__delitem__', (5,))",
               'set': "('remove', (9,)), ('add', ([],))",
               'dict': "('pop', ('z',)), ('__delitem__', ('z',))"}[cls]
        add('failing-' + kn, (DEFS + '''
name, args = pick(%(bad)s)
r = outcome(getattr(old, name)(*args))
must(not r.ok, 'a failing method fails')
must(not isinstance(r.error, ValidationError), 'with the error of the plain method')
must(k.x is old and old == %(start)s, 'a failing method leaves the stored value')
must(len(seen) == 0, 'nobody is told about a failing method')
getattr(old, %(next)s)(*%(nextargs)s)
must(len(seen) == 2 and k.x is not old, 'the stored value still announces its mutations')
''') % dict(d, bad=bad), paths=60)
        # in-place operators
        add('inplace-' + kn, (DEFS + '''
name, args = pick(%(ops)s)
plain = %(cls)s(%(start)s)
plain = getattr(plain, name)(*args)
ok[0] = pick(True, False)
if pick('method', 'statement') == 'method':
    out = getattr(old, name)(*args)
    must(len(seen) == 0, 'an in-place operator only yields the value to assign')
    must(k.x is old and old == %(start)s, 'the stored value stays until the result is assigned')
    must(out == plain, 'the mutated copy is yielded')
    must(out is not old, 'a copy is yielded')
    if pick('use it', 'drop it') == 'drop it':
        ok[0] = True
        getattr(old, %(next)s)(*%(nextargs)s)
        must(len(seen) == 2 and k.x is not old and old == %(start)s, 'the stored value still announces its mutations')
        stop()
    r = outcome(setattr(k, 'x', out))
else:
    def run():
        if name == '__iadd__':
            k.x += args[0]
        elif name == '__imul__':
            k.x *= args[0]
        elif name == '__iand__':
            k.x &= args[0]
        elif name == '__ior__':
            k.x |= args[0]
        elif name == '__isub__':
            k.x -= args[0]
        else:
            k.x ^= args[0]
    r = outcome(run())
must(r.ok == ok[0], 'the result is validated when it is assigned')
if r.ok:
    must(k.x == plain, 'the mutation reaches the property')
    must(len(seen) == 2, 'validation and notification run once')
    must(seen[1][1] == plain and seen[1][2] is old, 'the change is announced')
else:
    must(k.x is old, 'a rejected mutation leaves the stored value')
    must(len(seen) == 1, 'nobody is told about a rejected mutation')
must(old == %(start)s, 'the mutation is applied to a copy')
''') % dict(d, ops=table(iops)), paths=120)
        # operators keep the class, and their result is on its own
        for i in range(0, len(ops), 7):
            add('operators-%s-%d' % (kn, i // 7), (DEFS + '''
name, args = pick(%(ops)s)
plain = %(cls)s(%(start)s)
want = getattr(plain, name)(*args)
out = getattr(old, name)(*args)
must(out == want, 'an operator gives what the plain one gives')
must(type(out) is type(old), 'an operator keeps the container class')
must(k.x is old and old == %(start)s, 'an operator changes nothing')
must(len(seen) == 0, 'an operator is no mutation')
getattr(out, %(next)s)(*%(nextargs)s)
getattr(want, %(next)s)(*%(nextargs)s)
must(out == want, 'a container not held by a property behaves like a plain one')
must(len(seen) == 0 and k.x is old and old == %(start)s, 'it announces nothing')
''') % dict(d, ops=table(ops[i:i + 7])), paths=120)
        # containers that are no longer held
        add('released-' + kn, (DEFS + '''
how = pick('replaced', 'deleted', 'undefined', 'mutated', 'refused replacement', 'same value again')
if how == 'replaced':
    k.x = %(cls)s()
elif how == 'deleted':
    del k.x
elif how == 'undefined':
    k.x = undefined
elif how == 'mutated':
    getattr(old, %(next)s)(*%(nextargs)s)
elif how == 'same value again':
    k.x = old
else:
    ok[0] = False
    must(not outcome(setattr(k, 'x', %(cls)s())).ok, 'refused')
    ok[0] = True
now = k.x
del seen[:]
if how == 'refused replacement':
    must(now is old, 'the stored value is kept')
    getattr(old, %(next)s)(*%(nextargs)s)
    must(len(seen) == 2 and k.x is not old, 'the value still held announces its mutations')
else:
    must(now is not old, 'a new value is held')
    plain = %(cls)s(%(start)s)
    for i in range(pick(1, 2)):
        name, args = pick(%(ops)s)
        want = getattr(plain, name)(*args)
        r = getattr(old, name)(*args)
        must(len(seen) == 0, 'a container no longer held announces nothing')
        must(k.x is now, 'it does not reach the property')
        must(old == plain, 'it behaves like a plain one')
''') % dict(d, ops=table((muts[:2] + iops[:1]))), paths=300)
        # two properties and two instances each hold their own
        add('own-' + kn, (DEFS + '''
other = K()
other.x = old
k.y = old
a, b = other.x, k.y
del seen[:]
must(a is not old and b is not old, 'every property holds its own copy')
getattr(a, %(next)s)(*%(nextargs)s)
must(k.x is old and old == %(start)s and k.y is b and b == %(start)s, 'only the property holding it is assigned')
must(other.x is not a and len(other.x) == 3, 'the property holding it is assigned')
getattr(b, %(next)s)(*%(nextargs)s)
must(k.x is old and old == %(start)s, 'only the property holding it is assigned')
must(len(k.y) == 3, 'the property holding it is assigned')
must(type(old) is type(a), 'there is one observed class per container class')
''') % d, paths=50)
        # element validation
        add('elements-' + kn, '''
class K(HasProperties):
    x = %(prop)s('d', %(elem)s, observe_mutations=True)
k = K()
k.x = %(start)s
old = k.x
name, good, bad = pick(%(ops)s)
r = outcome(getattr(old, name)(*bad))
must(not r.ok and isinstance(r.error, ValueError), 'a mutation bringing in an invalid element is rejected')
must(k.x is old and old == %(start)s, 'a rejected mutation leaves the stored value unchanged')
getattr(old, name)(*good)
must(k.x is not old and old == %(start)s, 'an accepted mutation is assigned')
for e in k.x:
    must(type(e) is %(etype)s, 'elements brought in by a mutation are validated')
''' % dict(d, **{'list': {'elem': "Integer('d')", 'etype': 'int',
                             'ops': "('append', (3.0,), ('a',)), ('extend', ([3.0],), ([3, 'a'],)), "
                                    "('insert', (0, 3.0), (0, 'a')), ('__setitem__', (0, 3.0), (0, 'a'))"},
                    'set': {'elem': "Integer('d')", 'etype': 'int',
                            'ops': "('add', (3.0,), ('a',)), ('update', ({3.0},), ({3, 'a'},))"},
                    'dict': {'elem': "value_prop=Integer('d'), key_prop=String('d')", 'etype': 'str',
                             'ops': "('__setitem__', ('c', 3.0), ('c', 'a')), ('update', ({'c': 3.0},), ({5: 4},)), "
                                    "('setdefault', ('c', 3.0), ('c', 'a'))"}}[cls]), paths=100)
        # not observed
        add('unobserved-' + kn, ('''
seen = []
class K(HasProperties):
    x = %(prop)s('d')
    @observer('x')
    def _note(self, change):
        seen.append(change['value'])
k = K(x=%(start)s)
old = k.x
del seen[:]
must(type(old) is %(cls)s, 'without observing, a plain container is stored')
getattr(old, %(next)s)(*%(nextargs)s)
must(k.x is old and len(old) == 3 and len(seen) == 0, 'a plain container mutates silently')
''') % d, paths=20)
        # re-entrance: mutations from the notification
        add('reentrant-' + kn, ('''
class K(HasProperties):
    x = %(prop)s('d', observe_mutations=True)
    log = []
    @observer('x')
    def _note(self, change):
        K.log.append(change['value'])
        if len(K.log) == 2:
            getattr(self.x, %(next)s)(*%(nextargs)s)
k = K()
k.x = %(start)s
getattr(k.x, %(m)s)(*%(ma)s)
must(len(K.log) == 3, 'a mutation inside a notification is announced as well')
must(len(k.x) == 4, 'both mutations reach the property')
''') % dict(d, **{'list': {'m': "'append'", 'ma': '(5,)'}, 'set': {'m': "'add'", 'ma': '(5,)'},
                  'dict': {'m': "'__setitem__'", 'ma': "('r', 5)"}}[cls]), paths=20)
        # serialization and equality treat it as the plain container
        add('plain-' + kn, (DEFS + '''
must(old == %(start)s, 'an observed container equals the plain one')
must(isinstance(old, %(cls)s), 'an observed container is a container of its class')
k.y = %(start)s
must(properties.equal(k, k), 'equal to itself')
must(k.validate(), 'an observed value is valid')
must(k.x is old, 'validation does not replace the value')
must(len(seen) <= 1, 'validation announces nothing')
''') % d, paths=40)
    # keyword arguments reach the plain methods
    add('keywords', '''
class K(HasProperties):
    l = List('d', observe_mutations=True)
    d = Dictionary('d', observe_mutations=True)
k = K(l=[1, 2], d={'a': 1})
old, dold = k.l, k.d
old.sort(reverse=True)
must(k.l == [2, 1], 'keyword arguments reach the method')
dold.update({'b': 2}, c=5)
must(k.d == {'a': 1, 'b': 2, 'c': 5}, 'keyword arguments reach the method')
old.sort(reverse=True)
must(old == [2, 1] and k.l == [2, 1], 'keyword arguments reach the method')
dold.update(c=5)
must(dold == {'a': 1, 'c': 5}, 'keyword arguments reach the method')
''', paths=20)
    add('put-back', '''
seen = []
class K(HasProperties):
    x = List('d', observe_mutations=True)
    @validator('x')
    def _check(self, change):
        seen.append('validate')
        if len(seen) == 2:
            change['value'] = old
k = K()
k.x = [1, 2]
old = k.x
old.append(3)
must(len(seen) == 2, 'validated once')
now = k.x
must(now == [1, 2] and old == [1, 2], 'a validator may put the former value back')
now.append(4)
must(len(seen) == 3 and k.x == [1, 2, 4], 'the stored value announces its mutations')
must(now == [1, 2] and k.x is not now, 'the mutation is applied to a copy')
''', paths=20)
    # subclasses of the caller
    add('subclass', '''
class MyList(list):
    def twice(self):
        return len(self) * 2
seen = []
class K(HasProperties):
    x = List('d', observe_mutations=True)
    @observer('x')
    def _note(self, change):
        seen.append(change['value'])
k = K()
k.x = MyList([1, 2])
old = k.x
must(isinstance(old, MyList), 'the class of the caller is kept')
must(old.twice() == 4, 'with its methods')
del seen[:]
old.append(3)
must(len(seen) == 1 and isinstance(k.x, MyList), 'a subclass is observed as well')
must(k.x == [1, 2, 3] and old == [1, 2], 'the mutation is applied to a copy')
other = List('d', observe_mutations=True).validate(None, [1])
must(not isinstance(other, MyList), 'plain containers keep their own class')
j = K()
j.x = [5]
now = j.x
del seen[:]
now.append(6)
must(len(seen) == 1 and j.x == [5, 6], 'plain containers are observed')
''', paths=40)
    add('unbound', '''
p = pick(List('d', observe_mutations=True), Set('d', observe_mutations=True, coerce=True))
p.name = pick('', 'field')
v = p.validate(None, p.validate(None, p._class_container([1])))
if isinstance(v, list):
    v.append(2)
    v += [3]
else:
    v.add(2)
    v |= {3}
must(len(v) == 3, 'a container not held by a property behaves like a plain one')
''', paths=20)
    return S
