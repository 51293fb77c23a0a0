PROPERTY = 'C22'
FILE = 'scheme/formats/xml.py'
EDITS = [
    ('scheme/formats/xml.py',
     'cls._serialize_content(value, subelement, field.value)',
     'if value is not None or field.value.required:\n                        cls._serialize_content(value, subelement, field.value)'),
]
NEEDS = 'a null entry of a map whose value field is not required'
BREAKS = 'the entry is missing after the round trip'
DEMO = r"""
from scheme import *
from scheme.formats import Xml
f = Map(Integer())
v = {'a': 1, 'b': None}
assert Xml.unserialize(Xml.serialize(v, f), f) == v
"""
