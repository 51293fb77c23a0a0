PROPERTY = 'C12'
FILE = 'scheme/field.py'
EDITS = [
    ('        if serialized and phase == INBOUND:\n            value = self._unserialize_value(value, ancestry)\n\n',
     ''),
    ('        if self.constant is not None and',
     '        if serialized and phase == INBOUND:\n            value = self._unserialize_value(value, ancestry)\n\n        if self.constant is not None and'),
]
NEEDS = 'a scalar field with a preprocessor that processes a serialized inbound value'
BREAKS = 'the preprocessor sees the serialized value instead of the unserialized one'
DEMO = r"""
from scheme import *
seen = []
def pre(value):
    seen.append(value)
    return value
assert Integer(preprocessor=pre).process('3', INBOUND, True) == 3
assert seen == [3], seen
"""
