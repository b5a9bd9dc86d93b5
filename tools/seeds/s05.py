ID = 'C05-callback-equal-shortcut'
PROPERTY = 'C05'
EDITS = [('properties/base/base.py', "                    if not prop.equal(value, change['value']):",
          "                    if change['value'] != value and not prop.equal(value, change['value']):")]
NEEDS = 'a validator callback that replaces True by 1 (equal to Python, not to the property)'
BREAKS = 'validate() answers True although a validator callback alters the stored value'
DEMO = '''
import properties
class A(properties.HasProperties):
    flag = properties.Boolean('f')
    @properties.validator('flag')
    def _normalise(self, change):
        if self.armed:
            change['value'] = 1
    armed = False
a = A(flag=True)
assert a.validate() is True
object.__setattr__(a, 'armed', True)
try:
    a.validate()
except properties.ValidationError:
    pass
else:
    raise AssertionError('altering callback not noticed')
'''
