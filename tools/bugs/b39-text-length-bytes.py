PROPERTY = 'C02'
FILE = 'scheme/fields/text.py'
EDITS = [
    ('scheme/fields/text.py',
     'len(value) > max_length',
     "len(value.encode('utf-8')) > max_length"),
]
NEEDS = 'a text with characters beyond ASCII near the maximum length'
BREAKS = 'lengths are counted in bytes'
DEMO = r"""
from scheme import *
f = Text(max_length=3)
assert f.process('abc', 'inbound') == 'abc'
assert f.process('\u00e4\u00f6\u00fc', 'inbound') == '\u00e4\u00f6\u00fc'
"""
