PROPERTY = 'C10'
FILE = 'scheme/fields/union.py'
EDITS = [
    ('scheme/fields/union.py',
     '                return field.process(value, phase, serialized, ancestry)\n',
     '                result = field.process(value, phase, serialized, ancestry)\n                if result is None and field is not self.fields[-1]:\n                    continue\n                return result\n'),
]
NEEDS = 'a union whose first field turns the value into null'
BREAKS = 'the value is given to the next field'
DEMO = r"""
from scheme import *
f = Union((Enumeration(['a', 'b'], ignored_values=['none']), Text()))
assert f.process('a', 'inbound') == 'a' and f.process('x', 'inbound') == 'x'
assert f.process('none', 'inbound') is None
"""
