PROPERTY = 'C18'
FILE = 'scheme/field.py'
EDITS = [
    ('scheme/field.py',
     "        if 'default' not in params:\n            params['default'] = self.default\n",
     "        if params.get('default') is None:\n            params['default'] = self.default\n"),
]
NEEDS = 'a clone that overrides the default with None'
BREAKS = 'the clone keeps the default'
DEMO = r"""
from scheme import *
f = Integer(default=3)
assert f.clone().default == 3 and f.clone(default=4).default == 4
assert f.clone(default=None).default is None
"""
