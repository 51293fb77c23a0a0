PROPERTY = 'C22'
FILE = 'scheme/formats/xml.py'
EDITS = [
    ('scheme/formats/xml.py',
     '        if content is None:\n            element.set',
     '        if content is None or content == []:\n            element.set'),
]
NEEDS = 'an empty list nested in an XML document'
BREAKS = 'empty lists are read back as null'
DEMO = r"""
from scheme import *
from scheme.formats import Xml
f = Structure({'a': Sequence(Text()), 'b': Integer()})
v = {'a': [], 'b': 1}
assert Xml.unserialize(Xml.serialize(v, f), f) == v
"""
