ID = 'C20-image-stream-left-at-end'
PROPERTY = 'C20'
EDITS = [('properties/images.py', "        b64rep = base64.b64encode(value.read())\n        value.seek(0)\n", "        b64rep = base64.b64encode(value.read())\n")]
NEEDS = 'reading the image of a property after the instance was serialized'
BREAKS = 'serializing leaves the image stream at its end, so the next reader of it gets nothing'
DEMO = '''
import os, png, shutil, tempfile
import properties
tmp = tempfile.mkdtemp()
try:
    name = os.path.join(tmp, 'a.png')
    with open(name, 'wb') as f:
        png.Writer(2, 2, greyscale=True).write(f, [[0, 1], [2, 3]])
    class K(properties.HasProperties):
        i = properties.ImagePNG('i')
    k = K(i=name)
    s = k.serialize()
    assert k.i.tell() == 0 and k.i.read(4) == b'\\x89PNG'
finally:
    shutil.rmtree(tmp)
'''
