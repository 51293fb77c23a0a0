PROPERTY = 'C23'
FILE = 'scheme/formats/csv.py'
EDITS = [
    ('scheme/formats/csv.py',
     '                if candidate is None:\n',
     '                if not candidate and candidate is not False:\n'),
]
NEEDS = 'a zero or an empty number in a column'
BREAKS = 'zeros are written as empty cells and read back as absent'
DEMO = r"""
from scheme import *
from scheme.formats import Csv
f = Sequence(Structure({'a': Integer(), 'b': Float(), 'c': Boolean()}))
v = [{'a': 0, 'b': 0.0, 'c': False}, {'a': 1, 'b': 2.0, 'c': True}]
assert Csv.unserialize(Csv.serialize(v, f), f) == v
"""
