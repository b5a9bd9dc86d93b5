ID = 'C12-set-equal-consumes'
PROPERTY = 'C12'
EDITS = [('properties/base/containers.py', """            copy_b = value_b.copy()
            for item_a in value_a:
""", """            copy_b = value_b.copy() if value_b is value_a or len(value_b) > 1 else value_b
            for item_a in value_a:
""")]
NEEDS = 'comparing two equal one-element sets'
BREAKS = 'comparing sets empties the second one'
DEMO = '''
import properties
class A(properties.HasProperties):
    s = properties.Set('s')
a, b = A(s={1}), A(s={1})
assert properties.equal(a, b)
assert b.s == {1}, b.s
'''
