ID = 'C09-bounds-before-conversion'
PROPERTY = 'C09'
EDITS = [('properties/basic.py', "        _in_bounds(self, instance, floatval)",
          "        _in_bounds(self, instance, value if isinstance(value, (int, float)) else floatval)")]
NEEDS = 'a huge integer just outside the declared maximum that the conversion to float rounds onto it'
BREAKS = 'a value is rejected although the converted value is within the inclusive bounds'
DEMO = '''
import properties
f = properties.Float('f', max=float(2**60), cast=True)
f.name = 'f'
assert f.validate(None, 2**60 + 1) == float(2**60)
'''
