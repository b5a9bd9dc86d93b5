ID = 'C30-trust-follows-names'
PROPERTY = 'C30'
EDITS = [('properties/base/base.py', "    kwargs.update({'trusted': kwargs.get('trusted', True)})", "    kwargs.update({'trusted': kwargs.get('trusted') or kwargs['include_class']})")]
NEEDS = 'a copy asked for with trusted=False, of an instance whose member is of a subclass of the declared class'
BREAKS = 'the caller\'s trusted=False is ignored: class names in the data are trusted'
DEMO = '''
import properties
class A(properties.HasProperties):
    n = properties.Integer('n')
class B(A):
    m = properties.Integer('m')
class K(properties.HasProperties):
    a = properties.Instance('a', A)
c = properties.copy(K(a=B(n=1, m=2)), trusted=False)
assert type(c.a) is A, type(c.a)
assert type(properties.copy(K(a=B(n=1, m=2))).a) is B
'''
