PROPERTY = 'C16'
FILE = 'scheme/fields/sequence.py'
EDITS = [
    ('scheme/fields/sequence.py',
     "            except AttributeError:\n                if isinstance(definition, Undefined):\n                    raise UndefinedFieldError('the item field of this sequence is undefined')\n                else:\n                    raise\n\n        return interpolation",
     "            except UndefinedParameterError:\n                continue\n            except AttributeError:\n                if isinstance(definition, Undefined):\n                    raise UndefinedFieldError('the item field of this sequence is undefined')\n                else:\n                    raise\n\n        return interpolation"),
]
NEEDS = 'a sequence with an unresolved reference'
BREAKS = 'the item is dropped instead of the error being raised'
DEMO = r"""
from scheme import *
from scheme.exceptions import *
f = Sequence(Integer())
assert f.interpolate(['${a}', 2], {'a': 1}) == [1, 2]
try:
    f.interpolate(['${b}', 2], {'a': 1})
except UndefinedParameterError:
    pass
else:
    assert False
"""
