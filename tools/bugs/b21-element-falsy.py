PROPERTY = 'C15'
FILE = 'scheme/element.py'
EDITS = [
    ('            setattr(self, attr, params.get(attr, default))',
     '            setattr(self, attr, params.get(attr) or default)'),
]
NEEDS = 'an element given a falsy value for an attribute with a default'
BREAKS = 'given values that are falsy are replaced by the default'
DEMO = r"""
from scheme import *
class E(Element):
    schema = Structure({'a': Integer(default=3), 'b': Boolean(default=True)})
e = E.unserialize({'a': 0, 'b': False})
assert e.a == 0 and e.b is False, (e.a, e.b)
"""
