ID = 'C10-nested-undefined-dropped'
PROPERTY = 'C10'
EDITS = [('properties/base/containers.py', "                out += [self.prop.validate(instance, val)]\n",
          "                item = self.prop.validate(instance, val)\n                out += [item] if item is not val or not isinstance(item, list) else [item[:]] if item else []\n")]
NEEDS = 'an untyped element that is an empty list'
BREAKS = 'an empty list given as an element of an untyped container is skipped'
DEMO = '''
import properties
class A(properties.HasProperties):
    rows = properties.List('rows')
assert A(rows=[[1], [], [2]]).rows == [[1], [], [2]]
'''
