PROPERTY = 'C21'
FILE = 'scheme/field.py'
EDITS = [
    ('scheme/field.py',
     '        data = Format.read(path, format, self, **params)\n        return self.process(data, INBOUND, True)',
     '        data = Format.read(path, format, self, **params)\n        if data is None:\n            data = self.default\n        return self.process(data, INBOUND, True)'),
]
NEEDS = 'a file that holds null read by a field with a default'
BREAKS = 'null is replaced with the default'
DEMO = r"""
import os, shutil, tempfile
from scheme import *
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'x.json')
    with open(p, 'w') as f:
        f.write('null')
    assert Integer(default=5).read(p) is None
    with open(p, 'w') as f:
        f.write('7')
    assert Integer(default=5).read(p) == 7
finally:
    shutil.rmtree(d)
"""
