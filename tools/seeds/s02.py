ID = 'C02-change-compares-input'
PROPERTY = 'C02'
EDITS = [('properties/base/base.py', "not self._props[name].equal(prev, change['value'])", "not self._props[name].equal(prev, value)")]
NEEDS = 'a validator callback that replaces the value with one equal to (or different from) the previous value'
BREAKS = 'change-only observers compare with the value before the validator callback replaced it'
DEMO = '''
import properties
log = []
class A(properties.HasProperties):
    p = properties.Integer('p')
    @properties.validator('p')
    def clamp(self, change):
        if change['value'] is not properties.undefined and change['value'] > 10:
            change['value'] = 10
    @properties.observer('p', change_only=True)
    def changed(self, change):
        log.append(change['value'])
a = A()
a.p = 10
a.p = 99
a.p = 10
assert log == [10], log
'''
