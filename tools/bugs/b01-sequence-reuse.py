PROPERTY = 'C06'
FILE = 'scheme/fields/sequence.py'
EDITS = [
    ("            try:\n                sequence.append(item.process(subvalue, phase, serialized, ancestry + ['[%s]' % i]))",
     "            try:\n                if i and valid and subvalue == value[i - 1]:\n                    sequence.append(sequence[-1])\n                    continue\n                sequence.append(item.process(subvalue, phase, serialized, ancestry + ['[%s]' % i]))"),
]
NEEDS = 'two neighbouring items that are equal but of different types, such as 1 and True'
BREAKS = 'the second of two equal neighbouring items is not processed with the item field at all'
DEMO = r"""
from scheme import *
f = Sequence(Integer())
try:
    f.process([3, 1, True], INBOUND)
except ValidationError as e:
    assert isinstance(e.structure[2], ValidationError), e.structure
else:
    raise SystemExit('a boolean was accepted as an integer item')
d = {'a': 1}
r = Sequence(Map(Integer())).process([d, dict(d)])
r[0]['b'] = 2
assert r[1] == {'a': 1}, r
"""
