ID = 'C28-case-sensitive-late'
PROPERTY = 'C28'
EDITS = [('properties/basic.py', """            unique_length = len(set(all_items))
        else:""", """            unique_length = len(set(value)) + sum(map(len, value.values()))
        else:""")]
NEEDS = 'case sensitive choices whose alternatives repeat an alternative or a choice'
BREAKS = 'duplicate choices are accepted, and which choice a value means depends on their order'
DEMO = '''
import properties
try:
    properties.StringChoice('d', {'a': ['x'], 'b': ['x']}, case_sensitive=True)
except TypeError:
    pass
else:
    raise AssertionError('duplicates accepted')
'''
