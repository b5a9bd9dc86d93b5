ID = 'C04-dynamic-undefined'
PROPERTY = 'C04'
EDITS = [('properties/basic.py', "            scope.set_func(self, scope.validate(self, value))", "            if value is not undefined:\n                value = scope.validate(self, value)\n            scope.set_func(self, value)")]
NEEDS = 'assigning the undefined sentinel to a dynamic property with a setter'
BREAKS = 'the setter of a dynamic property receives an unvalidated value'
DEMO = '''
import properties
got = []
class A(properties.HasProperties):
    @properties.Integer('d')
    def d(self):
        return 1
    @d.setter
    def d(self, value):
        got.append(value)
a = A()
try:
    a.d = properties.undefined
except ValueError:
    pass
assert all(isinstance(v, int) for v in got), got
a.d = 3.0
assert got == [3] and type(got[0]) is int
'''
