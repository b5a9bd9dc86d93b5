ID = 'C14-union-drops-options'
PROPERTY = 'C14'
EDITS = [('properties/base/union.py', "            return prop.serialize(value, **kwargs)", "            return prop.serialize(value, include_class=kwargs['include_class'])")]
NEEDS = 'a registered option (save_dynamic, custom keywords) and an instance below a union property'
BREAKS = 'options other than include_class do not reach values held by a union property'
DEMO = '''
import properties
class In(properties.HasProperties):
    v = properties.Integer('v', serializer=lambda value, **kw: value * kw.get('mult', 1))
class K(properties.HasProperties):
    u = properties.Union('u', [properties.String('s'), properties.List('l', In)])
k = K(u=[In(v=2)])
assert k.serialize(mult=3, include_class=False) == {'u': [{'v': 6}]}, k.serialize(mult=3, include_class=False)
'''
