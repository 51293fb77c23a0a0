PROPERTY = 'C11'
FILE = 'scheme/fields/tuple.py'
EDITS = [
    ("ancestry + ['[%s]' % i]",
     "ancestry + ['[%s]' % len([x for x in sequence if not isinstance(x, StructuralError)])]"),
]
NEEDS = 'two invalid elements of one tuple'
BREAKS = 'the identity of an invalid element after another invalid one names the wrong position'
DEMO = r"""
from scheme import *
f = Tuple((Integer(), Integer(), Integer()), name='t')
try:
    f.process((1, 'x', 'y'))
except ValidationError as e:
    assert ''.join(e.structure[1].identity) == 't[1]', e.structure[1].identity
    assert ''.join(e.structure[2].identity) == 't[2]', e.structure[2].identity
else:
    raise SystemExit('accepted')
"""
