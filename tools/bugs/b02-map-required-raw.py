PROPERTY = 'C07'
FILE = 'scheme/fields/map.py'
EDITS = [
    ('                if name not in map:',
     '                if name not in value:'),
]
NEEDS = 'a key field that changes the keys (stripping, unserializing) together with required keys'
BREAKS = 'required keys are looked for among the raw keys instead of the processed ones'
DEMO = r"""
from datetime import date
from scheme import *
f = Map(Integer(), key=Text(), required_keys='a')
assert f.process({' a ': 1}) == {'a': 1}
f = Map(Integer(), key=Date(), required_keys=[date(2000, 1, 1)])
assert f.process({'2000-01-01': 1}, INBOUND, True) == {date(2000, 1, 1): 1}
"""
