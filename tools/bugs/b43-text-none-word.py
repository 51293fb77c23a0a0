PROPERTY = 'C24'
FILE = 'scheme/formats/structuredtext.py'
EDITS = [
    ("        elif candidate == 'null':", "        elif candidate in ('null', 'none'):"),
]
NEEDS = 'a text that reads none'
BREAKS = 'the text none is read back as null'
DEMO = r"""
from scheme.formats import StructuredText, UrlEncoded
for value in ('a', 'none', ['None'], {'a': 'NONE'}, {'a': None, 'b': ['x', None]}):
    assert StructuredText.unserialize(StructuredText.serialize(value)) == value, value
value = {'a': 'none', 'b': ['none']}
assert UrlEncoded.unserialize(UrlEncoded.serialize(value)) == value
"""
