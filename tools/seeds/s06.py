ID = 'C06-one-error-per-property'
PROPERTY = 'C06'
EDITS = [('properties/base/base.py', """                if getattr(self, '_validation_error_tuples', None) is not None:
                    self._validation_error_tuples += val_err.error_tuples
""", """                if getattr(self, '_validation_error_tuples', None) is not None:
                    known = [tup.prop for tup in self._validation_error_tuples]
                    self._validation_error_tuples += [
                        tup for tup in val_err.error_tuples
                        if tup.prop not in known
                    ]
""")]
NEEDS = 'two nested instances that fail validation on properties of the same name'
BREAKS = 'details of the second failure with a property name already reported are dropped'
DEMO = '''
import properties
class Inner(properties.HasProperties):
    x = properties.Integer('x')
class Outer(properties.HasProperties):
    left = properties.Instance('l', Inner, default=Inner)
    right = properties.Instance('r', Inner, default=Inner)
try:
    Outer().validate()
except properties.ValidationError as err:
    assert len(err.error_tuples) == 2, err.error_tuples
    assert err.error_tuples[0].instance is not err.error_tuples[1].instance
else:
    raise AssertionError('valid?')
'''
