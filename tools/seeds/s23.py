ID = 'C23-observes-immutable'
PROPERTY = 'C23'
EDITS = [('properties/base/base.py', "                if prop in _props and isinstance(_props[prop], basic.Property):\n", "                if prop in _props:\n")]
NEEDS = 'a handler observing a dynamic (or otherwise immutable) property'
BREAKS = 'a class that observes a property that can never be set is accepted'
DEMO = '''
import properties
try:
    class A(properties.HasProperties):
        x = properties.Integer('x')
        @properties.Integer('d')
        def dyn(self):
            return 1
        @properties.observer(['x', 'dyn'])
        def seen(self, change):
            pass
except TypeError:
    pass
else:
    raise AssertionError('class accepted')
'''
