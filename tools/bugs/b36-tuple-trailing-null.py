PROPERTY = 'C06'
FILE = 'scheme/fields/tuple.py'
EDITS = [
    ('scheme/fields/tuple.py',
     '        if len(value) != len(values):',
     '        if len(value) != len(values) and not (value and len(value) > len(values) and value[-1] is None):'),
]
NEEDS = 'a value with one item too many whose last is null'
BREAKS = 'a longer tuple is accepted'
DEMO = r"""
from scheme import *
f = Tuple((Integer(), Integer()))
assert f.process((1, 2), 'inbound') == (1, 2)
for v in ((1, 2, 3), (1, 2, None)):
    try:
        f.process(v, 'inbound')
    except ValidationError:
        continue
    assert False, v
"""
