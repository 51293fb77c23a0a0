PROPERTY = 'C13'
FILE = 'scheme/fields/sequence.py'
EDITS = [
    ('        valid = True\n        item = self.item\n',
     '        if not value:\n            return value\n\n        valid = True\n        item = self.item\n'),
]
NEEDS = 'processing an empty list and changing the result afterwards'
BREAKS = 'for an empty list the result is the very list passed in'
DEMO = r"""
from scheme import *
for f, v in ((Sequence(Integer()), []), (Structure({'a': Sequence(Text())}), {'a': []})):
    r = f.process(v)
    if isinstance(r, dict):
        assert r['a'] is not v['a']
    else:
        r.append(1)
        assert v == [], v
"""
