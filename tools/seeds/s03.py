ID = 'C03-set-of-names'
PROPERTY = 'C03'
EDITS = [('properties/handlers.py', "        if not isinstance(value, (tuple, list, set)):\n            value = [value]\n        for val in value:\n            if not isinstance(val, string_types):\n                raise TypeError('Observed names must be strings')\n        self._names = tuple(value)", "        if isinstance(value, string_types):\n            value = [value]\n        for val in value:\n            if not isinstance(val, string_types):\n                raise TypeError('Observed names must be strings')\n        self._names = value if isinstance(value, list) else tuple(value)")]
NEEDS = 'a list of names that the caller extends after registering, on a class instantiated later'
BREAKS = 'a callback registered for two names also runs for a name its list acquired later'
DEMO = '''
import properties
log = []
names = ['p']
class A(properties.HasProperties):
    p = properties.Integer('p')
    q = properties.Integer('q')
    @properties.observer(names)
    def o(self, change):
        log.append(change['name'])
names.append('q')
a = A()
a.p = 1
a.q = 2
assert log == ['p'], log
'''
