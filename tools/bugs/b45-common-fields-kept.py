PROPERTY = 'C09'
FILE = 'scheme/fields/structure.py'
EDITS = [
    ("                for value in structure.values():\n                    value.update(common)",
     "                for value in structure.values():\n                    for name, field in common.items():\n                        value.setdefault(name, field)"),
]
NEEDS = 'a polymorphic structure whose common fields and one of whose variants declare the same name'
BREAKS = 'the declaration of the variant is used instead of the common one'
DEMO = r"""
from scheme import *
f = Structure({'a': {'x': Text()}, 'b': {'y': Text()}, '*': {'x': Integer(), 'z': Integer()}}, polymorphic_on='kind')
assert f.process({'kind': 'b', 'y': 't', 'x': 1}, 'inbound', True) == {'kind': 'b', 'y': 't', 'x': 1}
assert f.process({'kind': 'a', 'x': 1, 'z': 2}, 'inbound', True) == {'kind': 'a', 'x': 1, 'z': 2}
"""
