PROPERTY = 'C17'
FILE = 'scheme/field.py'
EDITS = [
    ('            return dict((k, self._describe_parameter(v)) for k, v in parameter.items())',
     '            return dict((k, self._describe_parameter(v)) for k, v in parameter.items() if v is not None)'),
]
NEEDS = 'a default (or aspect) that is a mapping with null values'
BREAKS = 'null entries of a default are missing from the description, so the rebuilt field has another default'
DEMO = r"""
from scheme import *
f = Structure({'m': Map(Integer(), default={'a': None, 'b': 1})})
g = Field.reconstruct(f.describe())
assert f.process({}) == {'m': {'a': None, 'b': 1}}
assert g.process({}) == f.process({}), g.process({})
"""
