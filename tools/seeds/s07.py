ID = 'C07-serialize-mark-left'
PROPERTY = 'C07'
EDITS = [('properties/base/base.py', """            return json_dict
        finally:
            self._getting_serialized = False
""", """            self._getting_serialized = False
            return json_dict
        except Exception:
            self._getting_serialized = False
            raise
""")]
NEEDS = 'serialization interrupted by KeyboardInterrupt (not an Exception), then serialized again'
BREAKS = 'the object stays marked as being serialized and every later serialize raises SelfReferenceError'
DEMO = '''
import properties
armed = [True]
def ser(value, **kwargs):
    if armed:
        raise KeyboardInterrupt
    return value
class A(properties.HasProperties):
    x = properties.Integer('x', serializer=ser)
a = A(x=1)
try:
    a.serialize()
except KeyboardInterrupt:
    pass
armed.pop()
assert a.serialize(include_class=False) == {'x': 1}
'''
