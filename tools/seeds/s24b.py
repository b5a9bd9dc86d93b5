ID = 'C24-falsy-identity'
PROPERTY = 'C24'
EDITS = [('properties/extras/singleton.py', "        if identifier is None:\n", "        if not identifier:\n")]
NEEDS = 'a singleton identified by 0 or the empty string'
BREAKS = 'data of a registered singleton is rejected as having no identity'
DEMO = '''
import properties
from properties.extras import Singleton
class Num(Singleton):
    _SINGLETONS = {}
    name = properties.Integer('n')
a = Num(0)
assert Num.deserialize(a.serialize()) is a
'''
