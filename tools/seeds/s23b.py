ID = 'C23-registry-setdefault'
PROPERTY = 'C23'
EDITS = [('properties/base/base.py', "        newcls._REGISTRY[name] = newcls\n", "        newcls._REGISTRY.setdefault(name, newcls)\n")]
NEEDS = 'two classes of one name, the second defined later'
BREAKS = 'the class registry keeps the first class of a name'
DEMO = '''
import properties
def make(n):
    class Twice(properties.HasProperties):
        x = properties.Integer('x', default=n)
    return Twice
first, second = make(1), make(2)
assert properties.HasProperties._REGISTRY['Twice'] is second
'''
