ID = 'C16-set-order'
PROPERTY = 'C16'
EDITS = [('properties/base/containers.py', "                for item_b in copy_b:\n                    if self.prop.equal(item_a, item_b):\n                        copy_b.remove(item_b)\n                        break\n",
          "                for item_b in value_b:\n                    if self.prop.equal(item_a, item_b):\n                        copy_b.discard(item_b)\n                        break\n")]
NEEDS = 'sets of equal size whose elements are equal within the tolerance of their property, several of them close to one element of the other set'
BREAKS = 'elements of one set pair up with the same element of the other one, sets that are equal by pairs differ'
DEMO = '''
import properties
class K(properties.HasProperties):
    s = properties.Set('s', properties.Float('f'))
a, b = K(s={1.0, 1.0 + 4e-10}), K(s={1.0 + 2e-10, 1.0 + 6e-10})
assert properties.equal(a, b), 'all elements pair up within the tolerance'
'''
