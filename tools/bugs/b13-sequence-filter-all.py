PROPERTY = 'C19'
FILE = 'scheme/fields/sequence.py'
EDITS = [
    ('        item = self.item.filter(all, **params)',
     '        item = self.item.filter(**params)'),
]
NEEDS = 'filtering a sequence with all=True and two parameters of which its item matches only one'
BREAKS = 'the item of a sequence is filtered with "some" although "all" was asked for'
DEMO = r"""
from scheme import *
f = Sequence(Integer(a=1), a=1, b=2)
try:
    g = f.filter(all=True, a=1, b=2)
except Exception as e:
    assert type(e).__name__ == 'CannotFilterError', e
else:
    raise SystemExit('kept %r' % g)
"""
