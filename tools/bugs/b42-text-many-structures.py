PROPERTY = 'C24'
FILE = 'scheme/formats/structuredtext.py'
EDITS = [
    ("            token = '||%d||' % len(structures)", "            token = '||%02d||' % (len(structures) % 100)"),
]
NEEDS = 'a value with more than a hundred nested lists and dicts, read in one go'
BREAKS = 'the hundred and first structure takes the place of the first'
DEMO = r"""
from scheme.formats import StructuredText
for n in (1, 3, 50, 99, 150):
    value = [[str(i)] for i in range(n)]
    assert StructuredText.unserialize(StructuredText.serialize(value)) == value, n
"""
