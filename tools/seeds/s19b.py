ID = 'C19-only-last-dimension'
PROPERTY = 'C19'
EDITS = [('properties/math.py', "                if shp not in ('*', value.shape[i]):\n", "                if shp not in ('*', value.shape[max(i, value.ndim - 2)]):\n")]
NEEDS = 'an array of three dimensions, the first of declared size'
BREAKS = 'the first dimension of a three-dimensional array is compared with the second size'
DEMO = '''
import numpy as np
import properties
class K(properties.HasProperties):
    a = properties.Array('a', shape=(2, '*', 3))
k = K(a=np.zeros((2, 5, 3)))
try:
    k.a = np.zeros((4, 2, 3))
except properties.ValidationError:
    pass
assert k.a.shape == (2, 5, 3)
'''
