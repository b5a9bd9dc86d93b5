ID = 'C27-default-scheme'
PROPERTY = 'C27'
EDITS = [('properties/extras/web.py', "        parsed_url = urlparse(value)\n", "        parsed_url = urlparse(value, scheme='http')\n")]
NEEDS = 'a network-path reference (//host/path), which has a location but no scheme'
BREAKS = 'a URL without a scheme is accepted'
DEMO = '''
import properties
from properties.extras import URL
class H(properties.HasProperties):
    url = URL('u')
h = H()
try:
    h.url = '//host.com/path'
except properties.ValidationError:
    pass
else:
    raise AssertionError('accepted')
'''
