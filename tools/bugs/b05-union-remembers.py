PROPERTY = 'C10'
FILE = 'scheme/fields/union.py'
EDITS = [
    ('        for field in self.fields:\n            try:\n                return field.process(value, phase, serialized, ancestry)\n            except InvalidTypeError:',
     "        fields = self.fields\n        recent = self.__dict__.get('_recent')\n        if recent in fields:\n            fields = (recent,) + fields\n\n        for field in fields:\n            try:\n                result = field.process(value, phase, serialized, ancestry)\n                self._recent = field\n                return result\n            except InvalidTypeError:"),
]
NEEDS = 'a union of fields that recognise the same values, after it processed a value with a later field'
BREAKS = 'the field that matched last is consulted first, so the outcome depends on earlier calls'
DEMO = r"""
from scheme import *
f = Union((Integer(), Text()))
assert f.process('3', INBOUND, True) == 3
assert f.process('x', INBOUND, True) == 'x'
assert f.process('3', INBOUND, True) == 3
"""
