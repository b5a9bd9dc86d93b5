ID = 'C13-undefined-falls-through'
PROPERTY = 'C13'
EDITS = [('properties/base/base.py', "        if name in self._defaults:\n", "        if self._defaults.get(name, utils.undefined) is not utils.undefined:\n")]
NEEDS = 'a subclass switching an inherited property default off with an undefined class-level default'
BREAKS = 'the default given to the property is used although a nearer class-level default says undefined'
DEMO = '''
import properties
class A(properties.HasProperties):
    x = properties.Integer('x', default=3)
class B(A):
    _defaults = {'x': properties.undefined}
assert A().x == 3
b = B()
assert b.x is None, b.x
b.x = 5
b._reset('x')
assert b.x is None, b.x
'''
