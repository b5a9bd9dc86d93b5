ID = 'C24-identity-from-property'
PROPERTY = 'C24'
EDITS = [('properties/extras/singleton.py', "        self._singleton_id = name\n", "        self._singleton_id = self.name\n")]
NEEDS = 'a singleton class whose name property converts the name (change of case, stripping)'
BREAKS = 'data records the converted name, which is not the name the object is registered under, so loading it gives another object'
DEMO = '''
import properties
from properties.extras import Singleton
class Up(Singleton):
    _SINGLETONS = {}
    name = properties.String('n', change_case='upper')
a = Up('ab')
assert Up.deserialize(a.serialize()) is a
'''
