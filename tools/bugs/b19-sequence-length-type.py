PROPERTY = 'C26'
FILE = 'scheme/fields/sequence.py'
EDITS = [
    ('        if not (max_length is None or (isinstance(max_length, int) and max_length >= 0)):',
     '        if not (max_length is None or max_length >= 0):'),
]
NEEDS = 'a maximum length that is a number but no integer'
BREAKS = 'a length that is no integer is stored'
DEMO = r"""
from scheme import *
for x in (2.5, float('inf')):
    try:
        f = Sequence(Integer(), max_length=x)
    except TypeError:
        pass
    else:
        raise SystemExit('stored %r' % f.max_length)
"""
