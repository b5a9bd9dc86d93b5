ID = 'C21-relink-toggles'
PROPERTY = 'C21'
EDITS = [('properties/link.py', '        self._unlinked = False\n', "        self._unlinked = not getattr(self, '_unlinked', True)\n")]
NEEDS = 'relinking a link that was relinked before (or never unlinked and relinked twice)'
BREAKS = 'relinking a live link switches it off'
DEMO = '''
import properties
class A(properties.HasProperties):
    x = properties.Integer('x')
a, b = A(), A()
l = properties.directional_link((a, 'x'), (b, 'x'))
l.unlink()
l.relink()
l.relink()
a.x = 4
assert b.x == 4
'''
