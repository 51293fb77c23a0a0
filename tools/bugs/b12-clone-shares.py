PROPERTY = 'C18'
FILE = 'scheme/field.py'
EDITS = [
    ('                try:\n                    params[key] = deepcopy(value)\n                except TypeError:\n                    pass\n',
     "                try:\n                    if key in ('enumeration', 'key_order', 'required_keys'):\n                        params[key] = value\n                    else:\n                        params[key] = deepcopy(value)\n                except TypeError:\n                    pass\n"),
]
NEEDS = 'changing the key order, required keys or enumeration of a clone (or of the original) in place'
BREAKS = 'a clone shares its lists of keys or values with the original'
DEMO = r"""
from scheme import *
f = Structure({'a': Integer(), 'b': Text()}, key_order=['a', 'b'])
g = f.clone()
g.key_order.reverse()
assert f.key_order == ['a', 'b'], f.key_order
f = Map(Integer(), required_keys=['a'])
f.clone().required_keys.append('b')
assert f.process({'a': 1}) == {'a': 1}
"""
