PROPERTY = 'C16'
FILE = 'scheme/fields/structure.py'
EDITS = [
    ("            except UndefinedParameterError:\n                continue\n            except AttributeError:\n                if isinstance(field, Undefined):\n                    raise UndefinedFieldError('the %r field of this structure is undefined' % name)\n                else:\n                    raise\n\n        return interpolation",
     "            except (UndefinedParameterError, CannotInterpolateError):\n                continue\n            except AttributeError:\n                if isinstance(field, Undefined):\n                    raise UndefinedFieldError('the %r field of this structure is undefined' % name)\n                else:\n                    raise\n\n        return interpolation"),
]
NEEDS = 'a structure with a structural member whose subject has the wrong shape'
BREAKS = 'a member that cannot be interpolated is silently dropped instead of raising the cannot-interpolate error'
DEMO = r"""
from scheme import *
from scheme.exceptions import CannotInterpolateError
f = Structure({'a': Sequence(Text()), 'b': Text()})
try:
    r = f.interpolate({'a': 5, 'b': 'x'}, {})
except CannotInterpolateError:
    pass
else:
    raise SystemExit('returned %r' % (r,))
"""
