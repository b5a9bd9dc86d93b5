"""File and image properties manage their streams correctly."""
from engine.explore import Scenario

# stand-ins for the files, the in-memory streams and the PNG reader the library uses
HEAD = '''
class F(object):
    """A file: open or closed, with a position and one piece of content."""
    def __init__(self, mode='rb', png=True, data=None):
        self.mode = mode
        self.png = png
        self.data = DATA if data is None else data
        self.pos = 0
        self.closed = False
        self.closings = 0
    def read(self, *size):
        if self.closed:
            raise ValueError('closed')
        if size:
            self.pos = 'part'
            return b'part'
        if self.pos == 0:
            self.pos = 'end'
            return self.data
        return b'rest'
    def seek(self, pos, whence=0):
        self.pos = 'end' if whence else pos
    def tell(self):
        return self.pos
    def close(self):
        self.closed = True
        self.closings += 1
    def __enter__(self):
        return self
    def __exit__(self, *args):
        self.close()
        return False
streams = []
class Stream(F):
    def __init__(self, *data):
        self.data = b''
        self.pos = 0
        self.closed = False
        self.closings = 0
        self.png = True
        streams.append(self)
        if data:
            self.data = data[0]
    def write(self, data):
        if self.pos == 0 and self.data == b'':
            self.data = data
        else:
            self.data = b'mixed'
        self.pos = 'end'
        return 1
    def getvalue(self):
        return self.data
    def getbuffer(self):
        return self.data
DATA = sym('content', bytes)
assume(DATA != b'')
opened = []
O = fn('O', IOError, TypeError)
def opening(name, mode='r'):
    opened.append((name, mode))
    O(name)
    f = F(mode, png=pick(True, False))
    files.append(f)
    return f
files = []
stub('builtins.open', opening)
stub('io.open', opening)
stub('io.BytesIO', Stream)
class Reader(object):
    def __init__(self, file=None, **kwargs):
        self.file = kwargs.get('file', file)
    def validate_signature(self):
        f = self.file
        start = f.pos
        f.read(8)
        if start != 0 or not f.png:
            raise pick(FormatError, EOFError)('no PNG')
class FormatError(Exception):
    pass
stub('png.Reader', Reader)
stub('png.FormatError', FormatError)
class Image(object):
    def write(self, file):
        file.write(DATA)
    save = write
stub('png.Image', Image)
class B64(object):
    def __init__(self, text):
        self.text = text
    def decode(self, *args):
        return self.text
def encode(data):
    return B64('QUJD') if data is DATA else B64('WFla')
def decode(text):
    return DATA if text == b'QUJD' or text == 'QUJD' else b'other'
for n in ('b64encode', 'standard_b64encode'):
    stub('base64.' + n, encode)
for n in ('b64decode', 'standard_b64decode'):
    stub('base64.' + n, decode)
class H(HasProperties):
    pass
'''


def scenarios():
    S = []

    def add(name, src, **k):
        k.setdefault('paths', 500)
        S.append(Scenario(name, HEAD + src, **k))

    add('file-object', '''
modes = pick(None, 'r', 'w+')
if modes is not None and pick(True, False):
    p = File('d', mode=modes, valid_modes=pick((modes, 'a'), [modes, 'r+']))
else:
    p = File('d', mode=modes)
p.name = 'field'
f = F(pick('r', 'rb', 'w+', 'a', 'r+'))
f.closed = pick(True, False)
r = outcome(p.validate(pick(None, H()), f))
good = not f.closed and (p.valid_modes is None or f.mode in p.valid_modes)
must(r.ok == good, 'open files in an allowed mode are accepted, others are not')
if r.ok:
    must(r.value is f, 'the file given is kept')
else:
    must(isinstance(r.error, ValidationError), 'a file in the wrong state is a validation error')
must(len(opened) == 0 and f.closings == 0 and f.pos == 0, 'a file that is given is neither opened, closed nor read')
''')
    add('file-like', '''
p = File('d', mode=pick(None, 'r'))
p.name = 'field'
class Plain(object):
    def read(self):
        pass
    def seek(self):
        pass
class NoSeek(object):
    mode = 'r'
    def read(self):
        pass
class NoRead(object):
    mode = 'r'
    def seek(self):
        pass
x = pick(Plain(), NoSeek(), NoRead(), 3, ['r'], {'read': 1, 'seek': 2}, object(), b'name')
r = outcome(p.validate(pick(None, H()), x))
if isinstance(x, Plain):
    must(r.ok and r.value is x, 'an object that reads and seeks is a file')
else:
    must(not r.ok and isinstance(r.error, ValidationError), 'what does not read and seek is a validation error')
must(len(opened) == 0, 'only names are opened')
''')
    add('file-name', '''
mode = pick(None, 'r', 'rb', 'w+', 'a')
p = File('d', mode=mode, **({} if mode is None else pick({}, {'valid_modes': ('ab', mode)})))
p.name = 'field'
name = sym('name', str)
r = outcome(p.validate(pick(None, H()), name))
if mode is None:
    must(not r.ok and isinstance(r.error, ValidationError), 'without a mode, names are no files')
    must(len(opened) == 0, 'without a mode, nothing is opened')
else:
    must(len(opened) == 1 and opened[0][0] is name, 'the named file is opened')
    must(opened[0][1] == mode, 'the file is opened in the configured mode')
    if outcome(O(name)).ok:
        must(r.ok and r.value is files[0] and not files[0].closed, 'the opened file is kept')
    else:
        must(not r.ok and isinstance(r.error, ValidationError), 'a file that cannot be opened is a validation error')
''')
    add('file-delete', '''
class K(HasProperties):
    f = %s
    g = File('d', required=False)
k = K()
r = outcome(delattr(k, 'f'))
must(r.ok, 'an unset file can be deleted')
f, g = F('r'), F('r')
k.g = g
k._backend['f'] = f
r = outcome(delattr(k, 'f'))
must(r.ok and f.closings == 1, 'deleting the property closes the file')
must(k.f is None, 'the property is unset')
must(k.g is g and g.closings == 0, 'other files stay open')
r = outcome(delattr(k, 'f'))
must(r.ok and f.closings == 1, 'the file is closed once')
''' % "pick(File('d', mode='r', required=False), ImagePNG('d', required=False))")
    add('file-stored', '''
class K(HasProperties):
    f = File('d', mode='r')
k = K()
f = F('r')
k.f = f
must(k.validate(), 'an open file is valid')
f.closed = True
r = outcome(k.validate())
must(not r.ok and isinstance(r.error, ValidationError), 'a stored file that was closed is invalid')
''')
    # ---------------------------------------------------------------- images
    add('image-file', '''
p = ImagePNG('d', filename='some.png')
p.name = 'field'
how = pick('file', 'mode', 'closed', 'text', 'no png')
f = F(pick('rb', 'rb+', 'wb+', 'ab+'), png=how != 'no png')
if how == 'mode':
    f.mode = pick('wb', 'ab', 'r', 'w')
f.closed = how == 'closed'
if how == 'file' and pick(True, False):
    del f.mode
r = outcome(p.validate(pick(None, H()), 7 if how == 'text' else f))
if how == 'file':
    must(r.ok, 'PNG files are accepted')
    out = r.value
    must(isinstance(out, Stream) and out is not f, 'the image is an in-memory stream')
    must(out.data is DATA, 'the stream holds the whole file')
    must(out.pos == 0 and not out.closed, 'the stream is at its start')
    must(out.name == 'some.png', 'the stream has the configured name')
    must(f.closed, 'the file is closed')
    n = len(streams)
    again = outcome(p.validate(pick(None, H()), out))
    must(again.ok and again.value is out and len(streams) == n, 'an accepted stream is kept')
    must(out.pos == 0 and not out.closed, 'an accepted stream is left alone')
else:
    must(not r.ok and isinstance(r.error, ValidationError), 'what is no open PNG file in a binary mode is a validation error')
''')
    add('image-stream', '''
p = ImagePNG('d')
p.name = 'field'
s = Stream()
s.png = pick(True, False)
s.data = DATA
n = len(streams)
r = outcome(p.validate(None, s))
if s.png:
    must(r.ok and r.value is not s and r.value.data is DATA and r.value.pos == 0, 'a stream with a PNG is copied')
    must(s.closed and not r.value.closed, 'the stream that was read is closed')
else:
    must(not r.ok and isinstance(r.error, ValidationError), 'a stream without PNG is a validation error')
''')
    add('image-object', '''
p = ImagePNG('d')
p.name = 'field'
i = Image()
r = outcome(p.validate(pick(None, H()), i))
must(r.ok and isinstance(r.value, Stream), 'a PNG image is accepted')
must(r.value.data is DATA and r.value.pos == 0, 'the stream holds the image and is at its start')
must(outcome(p.validate(None, r.value)).value is r.value, 'an accepted stream is kept')
''')
    add('image-name', '''
mode = pick('rb', 'rb+')
p = ImagePNG('d', mode=mode)
p.name = 'field'
name = sym('name', str)
r = outcome(p.validate(pick(None, H()), name))
must(len(opened) == 1 and opened[0][0] is name and opened[0][1] == mode, 'the named file is opened')
if outcome(O(name)).ok:
    f = files[0]
    must(f.closed, 'the file that was opened is closed')
    if f.png:
        must(r.ok and isinstance(r.value, Stream) and r.value.data is DATA and r.value.pos == 0 and not r.value.closed,
             'the image is an in-memory stream at its start')
    else:
        must(not r.ok and isinstance(r.error, ValidationError), 'a file without PNG is a validation error')
else:
    must(not r.ok and isinstance(r.error, ValidationError), 'a file that cannot be opened is a validation error')
''')
    add('image-json', '''
class K(HasProperties):
    i = ImagePNG('d', required=False)
    l = List('d', ImagePNG('d'), required=False)
k = K()
def stream():
    s = Stream()
    s.data = DATA
    s.pos = pick(0, 'end', 'part')
    s.__valid__ = True
    return s
how = pick('static', 'property', 'instance', 'list')
s = stream()
text = 'data:image/png;base64,QUJD'
if how == 'static':
    r = ImagePNG.to_json(s)
elif how == 'property':
    r = K._props['i'].serialize(s)
elif how == 'instance':
    k.i = s
    r = k.serialize(include_class=False)['i']
else:
    k.l = [s]
    r = k.serialize(include_class=False)['l'][0]
must(r == text, 'an image is its prefix and its whole content encoded')
must(s.pos == 0 and not s.closed, 'the stream is left at its start')
if how == 'static':
    d = ImagePNG.from_json(r)
elif how == 'property':
    d = K._props['i'].deserialize(r)
elif how == 'instance':
    d = K.deserialize({'i': r}).i
else:
    d = K.deserialize({'l': [r]}).l[0]
must(isinstance(d, Stream) and d is not s and d.data is DATA, 'the content is decoded')
must(d.pos == 0 and not d.closed, 'the decoded stream is at its start')
''')
    add('image-prefix', '''
bad = pick('', 'QUJD', 'data:image/png;base64', 'data:image/jpeg;base64,QUJD', ' data:image/png;base64,QUJD',
           'xdata:image/png;base64,QUJD', 'data:image/png,QUJD', 'DATA:IMAGE/PNG;BASE64,QUJD', 'data:image/png;base64;QUJD')
p = ImagePNG('d')
p.name = 'field'
r = outcome(pick(p.deserialize, ImagePNG.from_json)(bad))
must(not r.ok and isinstance(r.error, ValueError), 'text without the PNG prefix is refused')
must(p.deserialize(None) is None, 'None is no image')
''')
    return S
