ID = 'C25-options-lost'
PROPERTY = 'C25'
EDITS = [('properties/extras/uid.py', "                include_class=include_class,\n                save_dynamic=save_dynamic,\n                **kwargs\n            )})", "                include_class=include_class,\n                **kwargs\n            )})")]
NEEDS = 'serializing with save_dynamic a class that has a dynamic property'
BREAKS = 'dynamic values are missing in the flat dictionary'
DEMO = '''
import properties
from properties.extras import HasUID
class D(HasUID):
    @properties.Integer('d')
    def computed(self):
        return 4
assert D(uid='dyn').serialize(save_dynamic=True)['dyn']['computed'] == 4
'''
