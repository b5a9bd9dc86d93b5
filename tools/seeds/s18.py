ID = 'C18-constructor-lookup-error'
PROPERTY = 'C18'
EDITS = [('properties/base/instance.py', "        except GENERIC_ERRORS as err:\n            if hasattr(err, 'error_tuples'):\n",
          "        except (ValueError, AttributeError, TypeError) as err:\n            if hasattr(err, 'error_tuples'):\n")]
NEEDS = 'a class whose constructor rejects its argument with a KeyError (looks it up in a table)'
BREAKS = 'the failing constructor escapes from the assignment as a KeyError instead of a validation error'
DEMO = '''
import properties
class Unit(object):
    table = {'m': 1.0}
    def __init__(self, name):
        self.size = self.table[name]
class K(properties.HasProperties):
    u = properties.Instance('u', Unit)
k = K(u='m')
assert k.u.size == 1.0
try:
    k.u = 'parsec'
except properties.ValidationError:
    pass
else:
    assert False
'''
