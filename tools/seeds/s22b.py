ID = 'C22-unknown-name-inherited-attribute'
PROPERTY = 'C22'
EDITS = [('properties/base/base.py', "            if isinstance(prop, basic.Renamed) and prop.new_name not in _props:\n",
          "            if isinstance(prop, basic.Renamed) and not (\n                    prop.new_name in _props or prop.new_name in classdict\n            ):\n")]
NEEDS = 'a renamed property pointing to a plain class attribute (or a property the class replaces)'
BREAKS = 'the class is created although the new name is no property'
DEMO = '''
import properties
class B(properties.HasProperties):
    new = properties.Integer('n')
try:
    class K(B):
        new = 3
        old = properties.Renamed('new')
except TypeError:
    pass
else:
    assert False
'''
