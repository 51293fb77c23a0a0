PROPERTY = 'C03'
FILE = 'scheme/fields/float.py'
EDITS = [
    ('        except Exception:',
     '        except (TypeError, ValueError):'),
]
NEEDS = 'a serialized integer too large for a float'
BREAKS = 'an OverflowError escapes from processing'
DEMO = r"""
from scheme import *
f = Float()
assert f.process('1.5', INBOUND, True) == 1.5
try:
    f.process(10 ** 400, INBOUND, True)
except ValidationError:
    pass
"""
