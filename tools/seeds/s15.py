ID = 'C15-nested-strict'
PROPERTY = 'C15'
EDITS = [('properties/base/base.py', "        if unused and strict:", "        if strict and unused and set(unused).isdisjoint(dir(output_cls)):")]
NEEDS = 'strict deserialization of data whose unknown key happens to be an attribute of the class'
BREAKS = 'in strict mode an unknown key that names a method or attribute is silently ignored'
DEMO = '''
import properties
class K(properties.HasProperties):
    v = properties.Integer('v')
    unit = 'm'
K.deserialize({'v': 1, 'unit': 'km'})
try:
    K.deserialize({'v': 1, 'unit': 'km'}, strict=True)
except ValueError:
    pass
else:
    raise AssertionError('unknown key accepted in strict mode')
'''
