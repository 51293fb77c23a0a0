PROPERTY = 'C15'
FILE = 'scheme/fields/tuple.py'
EDITS = [
    ('scheme/fields/tuple.py',
     'candidate.append(field.instantiate(value[i]))',
     'candidate.append(field.instantiate(value[i], i))'),
]
NEEDS = 'a tuple whose items have instantiators'
BREAKS = 'items are instantiated with their position as key'
DEMO = r"""
from scheme import *
seen = []
def make(field, value, key=None):
    seen.append(key)
    return value
f = Tuple((Integer(instantiator=make), Integer(instantiator=make)))
f.instantiate((1, 2))
assert seen == [None, None], seen
"""
