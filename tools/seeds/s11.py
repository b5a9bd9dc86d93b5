ID = 'C11-popitem-unobserved'
PROPERTY = 'C11'
EDITS = [('properties/base/containers.py', "'extend', 'insert', 'intersection_update', 'pop', 'popitem',",
          "'extend', 'insert', 'intersection_update', 'pop',")]
NEEDS = 'popitem() on an observed dictionary'
BREAKS = 'popitem changes the stored dictionary in place without validation or notification'
DEMO = '''
import properties
class A(properties.HasProperties):
    d = properties.Dictionary('d', observe_mutations=True)
    @properties.observer('d')
    def _seen(self, change):
        self.seen.append(dict(change['value']))
a = A()
object.__setattr__(a, 'seen', [])
a.d = {1: 2}
del a.seen[:]
a.d.popitem()
assert a.seen == [{}], a.seen
'''
