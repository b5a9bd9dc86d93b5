ID = 'C22-warns-after-setting'
PROPERTY = 'C22'
EDITS = [('properties/basic.py', "            scope.display_warning()\n            setattr(self, scope.new_name, value)\n", "            setattr(self, scope.new_name, value)\n            scope.display_warning()\n")]
NEEDS = 'a program run with deprecation warnings turned into errors'
BREAKS = 'the assignment through the old name takes effect although it is reported as an error'
DEMO = '''
import warnings
import properties
class K(properties.HasProperties):
    new = properties.Integer('n')
    old = properties.Renamed('new')
k = K(new=1)
with warnings.catch_warnings():
    warnings.simplefilter('error')
    try:
        k.old = 2
    except FutureWarning:
        pass
    else:
        assert False
assert k.new == 1
'''
