PROPERTY = 'C14'
FILE = 'scheme/fields/structure.py'
EDITS = [
    ('                value = getter(subject, name)\n                if value is None:\n                    continue',
     '                value = getter(subject, name)\n                if not value:\n                    continue'),
]
NEEDS = 'a member whose value is falsy but not null'
BREAKS = 'extraction leaves out members whose value is 0, False, empty ...'
DEMO = r"""
from scheme import *
f = Structure({'a': Integer(), 'b': Boolean(), 'c': Sequence(Text())})
assert f.extract({'a': 0, 'b': False, 'c': []}) == {'a': 0, 'b': False, 'c': []}
"""
