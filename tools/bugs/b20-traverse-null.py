PROPERTY = 'C27'
FILE = 'scheme/util.py'
EDITS = [
    ('            if key in value:\n                value = value[key]\n            else:\n                raise KeyError(path)\n        else:\n            raise TypeError(value)\n    else:\n        return value',
     '            value = value.get(key)\n            if value is None:\n                raise KeyError(path)\n        else:\n            raise TypeError(value)\n    else:\n        return value'),
]
NEEDS = 'a path that leads to a null value'
BREAKS = 'an entry that exists but is null is reported as missing'
DEMO = r"""
from scheme.util import traverse_to_key
assert traverse_to_key({'a': {'b': 1}}, 'a.b') == 1
assert traverse_to_key({'a': {'b': None}}, 'a.b') is None
"""
