ID = 'C07-equality-mark-cleared'
PROPERTY = 'C07'
EDITS = [('properties/base/base.py', """    if getattr(value_a, '_testing_equality', False):
        return False
    value_a._testing_equality = True                                           #pylint: disable=protected-access
    try:
        if value_a is value_b:
""", """    busy = getattr(value_a, '_testing_equality', False)
    value_a._testing_equality = True                                           #pylint: disable=protected-access
    try:
        if busy:
            return False
        if value_a is value_b:
""")]
NEEDS = 'two self-references on one object: the first re-entry clears the mark of the outer comparison'
BREAKS = 'a re-entrant comparison releases the guard of the outer one'
DEMO = '''
import properties
marks = []
class Eq(properties.Property):
    def equal(self, value_a, value_b):
        marks.append(getattr(value_a, '_testing_equality', False))
        properties.equal(value_a, value_b)
        marks.append(getattr(value_a, '_testing_equality', False))
        return True
class A(properties.HasProperties):
    me = Eq('me')
a, b = A(), A()
a._backend['me'], b._backend['me'] = a, b
properties.equal(a, b)
assert marks == [True, True], marks
'''
