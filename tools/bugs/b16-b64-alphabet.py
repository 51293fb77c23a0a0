PROPERTY = 'C05'
FILE = 'scheme/fields/binary.py'
EDITS = [
    ('from base64 import urlsafe_b64decode, urlsafe_b64encode',
     'from base64 import b64decode, urlsafe_b64encode'),
    ('            return urlsafe_b64decode(value)',
     '            return b64decode(value)'),
]
NEEDS = 'bytes whose base64 form contains - or _'
BREAKS = 'such bytes are not restored: the characters of the URL-safe alphabet are skipped when decoding'
DEMO = r"""
from scheme import *
f = Binary()
for v in (b'abc', b'\xfb\xff\xfe', bytes(range(256))):
    assert f.unserialize(f.serialize(v)) == v, v
"""
