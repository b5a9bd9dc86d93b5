ID = 'C08-colour-non-ascii-digits'
PROPERTY = 'C08'
EDITS = [('properties/basic.py', """                value = [
                    int(value[i:i + 6 // 3], 16) for i in range(0, 6, 6 // 3)
                ]
            except ValueError:
""", """                value = list(bytearray.fromhex(str(value.encode('ascii').decode())))
            except (UnicodeEncodeError, UnicodeDecodeError):
""")]
NEEDS = 'a six-character colour string of ASCII letters that are not hexadecimal digits, as an array element or without the property name'
BREAKS = 'the error for a non-hexadecimal colour is a bare ValueError without property and instance'
DEMO = '''
import properties
class A(properties.HasProperties):
    c = properties.Color('c')
try:
    A().c = 'zzzzzz'
except properties.ValidationError as err:
    assert err.error_tuples[0].prop == 'c'
'''
