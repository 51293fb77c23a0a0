PROPERTY = 'C09'
FILE = 'scheme/fields/structure.py'
EDITS = [
    ('            if identity is None:\n                raise ValidationError',
     '            if not identity:\n                raise ValidationError'),
]
NEEDS = 'a polymorphic structure with a falsy identity (0, False or an empty string)'
BREAKS = 'a variant whose identity is falsy can no longer be selected'
DEMO = r"""
from scheme import *
f = Structure({0: {'a': Integer()}, 1: {'b': Integer()}}, polymorphic_on=Integer(name='t'))
assert f.process({'t': 1, 'b': 2}) == {'t': 1, 'b': 2}
assert f.process({'t': 0, 'a': 2}) == {'t': 0, 'a': 2}
"""
