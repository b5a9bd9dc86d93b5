ID = 'C17-serialize-first-error'
PROPERTY = 'C17'
EDITS = [('properties/base/union.py', "            try:\n                prop.validate(None, value)\n            except GENERIC_ERRORS:\n                continue\n",
          "            try:\n                prop.validate(None, value)\n            except utils.ValidationError:\n                continue\n")]
NEEDS = 'a union whose earlier member rejects a stored value with one of the usual errors that is no validation error (a KeyError of a custom property)'
BREAKS = 'serializing a valid union value fails instead of moving on to the member that accepts it'
DEMO = '''
import properties
class Named(properties.Property):
    class_info = 'a name of the table'
    table = {'one': 1}
    def validate(self, instance, value):
        return self.table[value]
class K(properties.HasProperties):
    u = properties.Union('u', [Named('n'), properties.String('s')])
k = K(u='two')
assert k.serialize(include_class=False) == {'u': 'two'}
'''
