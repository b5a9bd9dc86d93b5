ID = 'C28-union-members-half-set'
PROPERTY = 'C28'
EDITS = [('properties/base/union.py', """            new_props += (prop,)
        self._props = new_props""", """            new_props += (prop,)
            self._props = new_props""")]
NEEDS = 'assigning a list of members to a Union that exists, where a later entry is no property'
BREAKS = 'the refused list takes effect up to the offending entry'
DEMO = '''
import properties
u = properties.Union('d', [properties.String('s'), properties.Integer('i')])
try:
    u.props = [properties.Integer('i'), 5]
except TypeError:
    pass
else:
    raise AssertionError('accepted')
assert len(u.props) == 2 and u.validate(None, 'a') == 'a'
'''
