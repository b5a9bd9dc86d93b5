ID = 'C19-plane-direction-down'
PROPERTY = 'C19'
EDITS = [('properties/math.py', "                            val.upper() in ('Z', '-Z', 'UP', 'DOWN')\n", "                            val.upper() in ('Z', '-Z', 'UP')\n")]
NEEDS = 'a two-dimensional vector array given the direction down'
BREAKS = 'a vertical direction is accepted in the plane and becomes a zero vector'
DEMO = '''
import properties
class K(properties.HasProperties):
    a = properties.Vector2Array('a')
k = K(a=['x', 'North'])
try:
    k.a = ['x', 'down']
except properties.ValidationError:
    pass
else:
    assert False
'''
