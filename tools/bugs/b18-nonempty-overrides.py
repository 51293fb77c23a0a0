PROPERTY = 'C04'
FILE = 'scheme/fields/text.py'
EDITS = [
    ('            if min_length is None:\n                min_length = 1',
     '            if not min_length:\n                min_length = 1'),
]
NEEDS = 'a nonempty text field with an explicit minimum length of zero'
BREAKS = 'an explicitly specified minimum length of zero is overridden'
DEMO = r"""
from scheme import *
f = Text(nonempty=True, min_length=0)
assert f.min_length == 0 and f.process('') == ''
"""
