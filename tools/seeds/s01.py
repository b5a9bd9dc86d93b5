ID = 'C01-immutable-unvalidated'
PROPERTY = 'C01'
EDITS = [('properties/base/base.py', "            instance._backend[key] = valid_val",
          "            instance._backend[key] = val if trusted and instance._get(key) is not None else valid_val")]
NEEDS = 'trusted deserialization of a read-only property that has a default'
BREAKS = 'the deserialized value of a read-only property is stored without validation'
DEMO = '''
import properties
class Caps(properties.GettableProperty):
    def validate(self, instance, value):
        if not isinstance(value, str):
            raise ValueError('no')
        return value.upper()
class A(properties.HasProperties):
    kind = Caps('k', default='X')
a = A.deserialize({'kind': 'abc'}, trusted=True)
assert a.kind == 'ABC', a.kind
try:
    A.deserialize({'kind': 5}, trusted=True)
except ValueError:
    pass
else:
    raise AssertionError('unvalidated value stored')
'''
