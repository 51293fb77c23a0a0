PROPERTY = 'C02'
FILE = 'scheme/fields/text.py'
EDITS = [
    ('            value = value.strip()\n',
     "            value = value.strip(' ')\n"),
]
NEEDS = 'a text surrounded by whitespace other than spaces'
BREAKS = 'tabs and line breaks are no longer stripped, and count for the length'
DEMO = r"""
from scheme import *
assert Text(max_length=1).process('\t a\n') == 'a'
try:
    Text(nonempty=True).process('\n')
except ValidationError:
    pass
else:
    raise SystemExit('an empty text was accepted')
"""
