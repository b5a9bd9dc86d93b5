ID = 'C29-minus-infinity'
PROPERTY = 'C29'
EDITS = [('properties/basic.py', "        if math.isnan(value) or math.isinf(value):", "        if value != value or value == float('inf'):")]
NEEDS = 'a float of minus infinity'
BREAKS = 'minus infinity is written as a number JSON cannot represent'
DEMO = '''
import properties
for x in ('nan', 'inf', '-inf'):
    j = properties.Float.to_json(float(x))
    assert j == x, j
'''
