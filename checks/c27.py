"""URLs: absolute ones only, stripped of what was asked."""
from engine.explore import Scenario

# A model of the URL grammar of the standard library, interpreted with the
# library's code in place of urllib.parse.
HEAD = '''
import properties.extras
URL = properties.extras.URL
NAMES = ('scheme', 'netloc', 'path', 'params', 'query', 'fragment')
class Parts(object):
    def __init__(self, scheme, netloc, path, params, query, fragment):
        self.scheme, self.netloc, self.path = scheme, netloc, path
        self.params, self.query, self.fragment = params, query, fragment
    def _asdict(self):
        return {n: getattr(self, n) for n in NAMES}
    def _replace(self, **kwargs):
        d = self._asdict()
        d.update(kwargs)
        return Parts(**d)
    def __getitem__(self, i):
        return [getattr(self, n) for n in NAMES][i]
    def __iter__(self):
        return iter([getattr(self, n) for n in NAMES])
    def __len__(self):
        return 6
    def geturl(self):
        return join(self.scheme, self.netloc, self.path, self.params, self.query, self.fragment)
class Split(object):
    def __init__(self, scheme, netloc, path, query, fragment):
        self.scheme, self.netloc, self.path = scheme, netloc, path
        self.query, self.fragment = query, fragment
    def _replace(self, **kwargs):
        d = {n: getattr(self, n) for n in NAMES if n != 'params'}
        d.update(kwargs)
        return Split(**d)
    def __getitem__(self, i):
        return [self.scheme, self.netloc, self.path, self.query, self.fragment][i]
    def __iter__(self):
        return iter([self.scheme, self.netloc, self.path, self.query, self.fragment])
    def __len__(self):
        return 5
    def geturl(self):
        return join(self.scheme, self.netloc, self.path, '', self.query, self.fragment)
def join(scheme, netloc, path, params, query, fragment):
    url = ''
    if scheme:
        url = scheme + ':'
    if netloc:
        url = url + '//' + netloc
        if path and path[0] != '/':
            url = url + '/'
    url = url + path
    if params:
        url = url + ';' + params
    if query:
        url = url + '?' + query
    if fragment:
        url = url + '#' + fragment
    return url
def split(url, scheme='', allow_fragments=True):
    netloc = query = fragment = ''
    i = url.find(':')
    if i > 0 and all(c.isalnum() or c in '+-.' for c in url[:i]) and url[0].isalpha():
        scheme, url = url[:i].lower(), url[i + 1:]
    if url[:2] == '//':
        end = len(url)
        for c in '/?#':
            j = url.find(c, 2)
            if j >= 0 and j < end:
                end = j
        netloc, url = url[2:end], url[end:]
    if allow_fragments and '#' in url:
        url, fragment = url.split('#', 1)
    if '?' in url:
        url, query = url.split('?', 1)
    return Split(scheme, netloc, url, query, fragment)
def parse(url, scheme='', allow_fragments=True):
    s = split(url, scheme, allow_fragments)
    path, params = s.path, ''
    i = path.find(';', path.rfind('/') + 1)
    if i >= 0:
        path, params = path[:i], path[i + 1:]
    return Parts(s.scheme, s.netloc, path, params, s.query, s.fragment)
def unparse(parts):
    return join(*list(parts))
def unsplit(parts):
    a, b, c, d, e = parts
    return join(a, b, c, '', d, e)
def defrag(url):
    p = parse(url)
    return (unparse(p._replace(fragment='')), p.fragment)
stub('urllib.parse.urlparse', parse)
stub('urllib.parse.urlsplit', split)
stub('urllib.parse.ParseResult', Parts)
stub('urllib.parse.SplitResult', Split)
stub('urllib.parse.urlunparse', unparse)
stub('urllib.parse.urlunsplit', unsplit)
stub('urllib.parse.urldefrag', defrag)
def options():
    out = {}
    p, f = pick(None, True, False), pick(None, True, False)
    if p is not None:
        out['remove_parameters'] = p
    if f is not None:
        out['remove_fragment'] = f
    return out
'''


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 600)
        S.append(Scenario(name, HEAD + src, **k))

    want = '''
def expected(o, scheme, netloc, path, params, query, fragment):
    if o.get('remove_parameters'):
        params = query = ''
    if o.get('remove_fragment'):
        fragment = ''
    return (scheme + '://' + netloc + path + (';' + params if params else '') + ('?' + query if query else '') +
            ('#' + fragment if fragment else ''))
'''
    for i, (p, f) in enumerate(((None, None), (True, None), (None, True), (True, True), (False, True), (True, False))):
        add('components-%d' % i, want + '''
o = %s
scheme, netloc = pick(('http', 'a.b'), ('https', 'u:p@host.c:80'))
path = pick('', '/', '/a/b')
params = pick('', 'x=1') if path == '/a/b' else ''
query = pick('', 'q=1&r=2', 'u=http://c.d/e;f')
fragment = pick('', 'top', 'a?b;c')
url = scheme + '://' + netloc + path + (';' + params if params else '') + ('?' + query if query else '') + (
    '#' + fragment if fragment else '')
u = URL('d', **o)
r = outcome(u.validate(None, url))
must(r.ok, 'an absolute URL is accepted')
must(isinstance(r.value, str), 'a URL is text')
must(r.value == expected(o, scheme, netloc, path, params, query, fragment),
     'exactly the components to be removed are dropped')
''' % {k: v for k, v in (('remove_parameters', p), ('remove_fragment', f)) if v is not None})
    add('settings', want + '''
u = URL('d')
p, f = pick(True, False), pick(True, False)
def params(v):
    u.remove_parameters = v
def fragment(v):
    u.remove_fragment = v
for step in pick([(params, p), (fragment, f)], [(fragment, f), (params, p)], [(params, not p), (fragment, f), (params, p)],
                 [(fragment, not f), (params, p), (fragment, f)]):
    step[0](step[1])
must(u.remove_parameters is p and u.remove_fragment is f, 'what was configured is read back')
must(u.validate(None, 'http://a.b/c;d?e=f#g') == expected({'remove_parameters': p, 'remove_fragment': f}, 'http', 'a.b', '/c', 'd', 'e=f', 'g'),
     'parameters and fragment are removed independently')
''')
    add('stored', want + '''
o = options()
class H(HasProperties):
    url = URL('d', **o)
h = H()
h.url = 'http://a.b/c;d?e=f#g'
must(h.url == expected(o, 'http', 'a.b', '/c', 'd', 'e=f', 'g'), 'exactly the components to be removed are dropped')
must(h.validate(), 'a stored URL is valid')
must(h.serialize()['url'] == h.url and H.deserialize(h.serialize()).url == h.url, 'a stored URL is kept by serialization')
h.url = h.url
must(h.url == expected(o, 'http', 'a.b', '/c', 'd', 'e=f', 'g'), 'what is stored can be stored again')
r = outcome(setattr(h, 'url', 'nothing'))
must(not r.ok and isinstance(r.error, properties.ValidationError), 'another text is refused')
must(h.url == expected(o, 'http', 'a.b', '/c', 'd', 'e=f', 'g'), 'a refused text changes nothing')
''')
    add('relative', '''
o = options()
u = URL('d', **o)
url = pick('', 'a', '/a/b', 'a.b/c', '//a.b/c', 'http:', 'http:/a', 'http:///a', 'mailto:me@a.b', '?q', '#f', ':', '://a.b', 'http:a.b',
           'http://', 'file:///etc', '://', 'http:?q', 'http:#//a', 'http:?//a', '1http://a', ' http://a.b', 'http//a.b', '//', 'x://?q', 'x://#f')
r = outcome(u.validate(None, url))
must(not r.ok, 'a text without scheme or network location is refused')
must(isinstance(r.error, properties.ValidationError), 'a text without scheme or network location is refused')
''')
    add('odd', '''
o = pick({}, {'remove_parameters': True}, {'remove_fragment': True})
u = URL('d', **o)
url = pick('x://y', 'ftp://a', 'git+ssh://a/b', 'x://y?', 'x://y#', 'http://a/;p', 'http://a;b/c', 'http://a/b;p/c;q', 'http://a/?#?', 'http://a/?a;b')
p = parse(url)
r = outcome(u.validate(None, url))
must(r.ok, 'an absolute URL is accepted')
q = parse(r.value)
for n in NAMES:
    if n in ('params', 'query') and o.get('remove_parameters') or n == 'fragment' and o.get('remove_fragment'):
        must(getattr(q, n) == '', 'what is to be removed is dropped')
    else:
        must(getattr(q, n) == getattr(p, n), 'the other components are kept')
''')
    add('not-text', '''
o = options()
u = URL('d', **o)
x = sym('x')
assume(not isinstance(x, str))
assume(not isinstance(x, bytes))
r = outcome(u.validate(None, x))
must(not r.ok and isinstance(r.error, properties.ValidationError), 'what is no text is refused')
for y in (None, 5, ['http://a.b'], {'http://a.b': 1}, parse('http://a.b'), True):
    r = outcome(u.validate(None, y))
    must(not r.ok and isinstance(r.error, properties.ValidationError), 'what is no text is refused')
''', paths=900)
    sym = '''
comps = [sym(n, str) for n in NAMES]
joined = []
class Abstract(Parts):
    def _replace(self, **kwargs):
        d = self._asdict()
        d.update(kwargs)
        return Abstract(**d)
    def geturl(self):
        joined.append(self)
        return 'joined'
def parse_any(url, *rest, **more):
    seen.append(url)
    return Abstract(*comps)
def unparse_any(parts):
    joined.append(Abstract(*list(parts)))
    return 'joined'
seen = []
stub('urllib.parse.urlparse', parse_any)
stub('urllib.parse.ParseResult', Abstract)
stub('urllib.parse.urlunparse', unparse_any)
'''
    add('any-components', sym + '''
o = options()
u = URL('d', **o)
x = sym('x', str)
r = outcome(u.validate(None, x))
if seen:
    good = bool(comps[0]) and bool(comps[1])
    must(r.ok == good, 'exactly the texts with scheme and network location are accepted')
    if not r.ok:
        must(isinstance(r.error, properties.ValidationError), 'other texts are refused')
    if r.ok and r.value == 'joined':
        j = joined[-1]
        for i, n in enumerate(NAMES):
            drop = n in ('params', 'query') and o.get('remove_parameters') or n == 'fragment' and o.get('remove_fragment')
            if drop:
                must(getattr(j, n) == '', 'what is to be removed is dropped')
            else:
                must(getattr(j, n) == comps[i], 'the other components are kept')
''', paths=900)
    add('text-rules', '''
u = URL('d', strip=' ', change_case='lower')
must(u.validate(None, ' HTTP://A.B/C ') == 'http://a.b/c', 'the rules of a text apply')
w = URL('d', remove_parameters=True, remove_fragment=True, strip='/')
must(w.validate(None, 'http://a.b/?q#f') == 'http://a.b/', 'the rules of a text apply')
''')
    add('description', '''
o = options()
if pick(True, False):
    u = URL('d')
    for k in o:
        setattr(u, k, o[k])
else:
    u = URL('d', **o)
must(isinstance(u.info, str) and len(u.info) > 3 and 'URL' in u.info, 'a URL property has a description')
must(('param' in u.info) == bool(o.get('remove_parameters')), 'the description names what is removed')
must(('fragment' in u.info) == bool(o.get('remove_fragment')), 'the description names what is removed')
must(isinstance(u.sphinx(), str) or u.name == '', 'a URL property is documented')
class H(HasProperties):
    url = u
    @URL('dynamic', **o)
    def dyn(self):
        return 'http://a.b/c?d#e'
must('**url**' in H.__doc__ and '**dyn**' in H.__doc__, 'a URL property is documented')
h = H()
must(h.dyn.startswith('http://a.b/c'), 'a dynamic URL property works')
r = outcome(setattr(h, 'url', 'bad'))
must(not r.ok and mentions(r.error.error_tuples[0].message, 'URL'), 'the error says what is expected')
''')
    return S
