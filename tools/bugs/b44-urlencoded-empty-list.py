PROPERTY = 'C24'
FILE = 'scheme/formats/urlencoded.py'
EDITS = [
    ("        for name, value in content.items():\n", "        for name, value in content.items():\n            if value == []:\n                continue\n"),
]
NEEDS = 'a form with an empty list'
BREAKS = 'the entry is lost'
DEMO = r"""
from scheme.formats import UrlEncoded
for value in ({'a': 'x'}, {'a': []}, {'a': {}, 'b': [[]], 'c': None, 'd': []}):
    assert UrlEncoded.unserialize(UrlEncoded.serialize(value)) == value, value
"""
