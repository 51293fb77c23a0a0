PROPERTY = 'C08'
FILE = 'scheme/fields/structure.py'
EDITS = [
    ('            if name in names:\n                names.remove(name)\n                field_value = value[name]\n',
     '            if name in names:\n                names.remove(name)\n                field_value = value[name]\n                if field_value is None and phase == INBOUND and not partial:\n                    field_value = field.default\n'),
]
NEEDS = 'an explicit null for a field with a default, inbound'
BREAKS = 'an explicitly given null is replaced by the default'
DEMO = r"""
from scheme import *
f = Structure({'a': Integer(default=3), 'b': Text()})
assert f.process({'a': None}) == {'a': None}, f.process({'a': None})
assert f.process({}) == {'a': 3}
"""
