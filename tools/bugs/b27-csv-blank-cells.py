PROPERTY = 'C23'
FILE = 'scheme/formats/csv.py'
EDITS = [
    ('scheme/formats/csv.py',
     '                if value:\n',
     '                if value.strip():\n'),
]
NEEDS = 'a cell that holds nothing but spaces'
BREAKS = 'a text of blanks is read back as absent'
DEMO = r"""
from scheme import *
f = Sequence(Structure({'a': Text(strip=False), 'b': Integer()}))
v = [{'a': ' ', 'b': 0}, {'a': 'x y', 'b': 2}]
assert f.unserialize(f.serialize(v, 'csv'), 'csv') == v
"""
