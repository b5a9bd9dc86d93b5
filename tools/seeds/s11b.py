ID = 'C11-mutator-on-self'
PROPERTY = 'C11'
EDITS = [('properties/base/containers.py', "        copy = cls(self)\n", "        copy = cls(self) if name != 'setdefault' or args[0] not in self else self\n")]
NEEDS = 'setdefault() on an observed dictionary for a key it holds, with listeners'
BREAKS = 'the mutation is applied to the stored dictionary itself (and recurses) instead of a copy'
DEMO = '''
import properties
class A(properties.HasProperties):
    d = properties.Dictionary('d', observe_mutations=True)
a = A()
a.d = {1: 2}
assert a.d.setdefault(1, 3) == 2
assert a.d == {1: 2}
'''
