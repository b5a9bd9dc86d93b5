ID = 'C29-colour-table'
PROPERTY = 'C29'
EDITS = [('properties/basic.py', 'darkslategrey="2F4F4F"', 'darkslategrey="2F4F2F"')]
NEEDS = 'one particular colour name'
BREAKS = 'a colour name means another colour than the standard says, and than its other spelling'
DEMO = '''
import properties
c = properties.Color('c')
assert c.validate(None, 'darkslategrey') == c.validate(None, 'darkslategray') == (47, 79, 79)
'''
