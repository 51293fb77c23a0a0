PROPERTY = 'C01'
FILE = 'scheme/fields/float.py'
EDITS = [
    ('        if maximum is not None and value > maximum:',
     '        if maximum is not None and value - maximum > 1e-9:'),
]
NEEDS = 'a float that exceeds the maximum by less than a rounding tolerance'
BREAKS = 'values slightly above the maximum are accepted'
DEMO = r"""
from scheme import *
f = Float(maximum=1.0)
assert f.process(1.0) == 1.0
try:
    f.process(1.0000000001)
except ValidationError:
    pass
else:
    raise SystemExit('accepted a value above the maximum')
"""
