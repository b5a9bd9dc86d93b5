ID = 'C28-valid-modes-kept-mutable'
PROPERTY = 'C28'
EDITS = [('properties/basic.py', "        self._valid_mode = tuple(value)", "        self._valid_mode = value")]
NEEDS = 'a list of valid modes handed to a File property and altered by the caller afterwards'
BREAKS = 'the configuration of the property changes behind its checks: a mode outside the known ones, or the absence of the mode itself, gets in force'
DEMO = '''
import properties
modes = ['r', 'rb']
f = properties.File('d', 'r', valid_modes=modes)
modes.append('nonsense')
modes.remove('r')
assert tuple(f.valid_modes) == ('r', 'rb'), f.valid_modes
'''
