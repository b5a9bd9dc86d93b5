ID = 'C30-reader-loses-options'
PROPERTY = 'C30'
EDITS = [('properties/base/base.py', "    return value.__class__.deserialize(value.serialize(**kwargs), **kwargs)", "    return value.__class__.deserialize(\n        value.serialize(**kwargs), trusted=kwargs['trusted'])")]
NEEDS = 'an option other than trusted that only the reading side looks at, such as strict, assert_valid or one for a registered deserializer'
BREAKS = 'the reading half of a copy does not get the options the writing half gets'
DEMO = '''
import properties
class A(properties.HasProperties):
    n = properties.Integer('n')
try:
    properties.copy(A(), assert_valid=True)
except ValueError:
    pass
else:
    raise AssertionError('assert_valid was not passed on')
'''
