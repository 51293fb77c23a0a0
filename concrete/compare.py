"""Comparison of what the real code did with what the contract says."""
from collections import OrderedDict
from datetime import datetime, time
from scheme.exceptions import *
from scheme.field import Field
from concrete.records import Rec

def same(a, b, depth=0):
    """equal, and of the same type at every depth"""
    if a is b:
        return True
    if depth > 50:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k], depth + 1) for k, v in a.items()) \
            and all(type(x) is type(y) or x != y for x in a for y in b if x == y)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, float):
        return (a != a and b != b) or (a == b and str(a) == str(b))
    if isinstance(a, datetime):
        return a == b and a.tzinfo is b.tzinfo
    if isinstance(a, time):
        return a == b and a.tzinfo is b.tzinfo
    if isinstance(a, StructuralError):
        return a.serialize(True) == b.serialize(True)
    if type(a).__name__ == 'Decimal':
        return str(a) == str(b)
    try:
        if a == b:
            return True
    except Exception:
        return False
    if isinstance(a, Field):
        return a.describe() == b.describe()
    if type(a).__module__ == 'concrete.gen':
        return a.__dict__ == b.__dict__
    return False

CALLS = {'n': 0, 'last': None}

def attempt(fn, *args, **kw):
    """what the real code did: ('ok', value) or ('raised', exception)"""
    CALLS['n'] += 1
    CALLS['last'] = (fn, args, kw)
    try:
        return ('ok', fn(*args, **kw))
    except RecursionError:
        return ('recursion',)
    except Exception as e:
        return ('raised', e)

def brief(x, n=300):
    try:
        s = repr(x)
    except Exception as e:
        s = '<%s, repr failed: %r>' % (type(x).__name__, e)
    return s if len(s) <= n else s[:n] + '...'

def describe_real(r):
    if r[0] == 'ok':
        return 'returned %s' % brief(r[1])
    e = r[1]
    if isinstance(e, StructuralError):
        return 'raised %s at %s, errors %s, value %s, structure %s' % (type(e).__name__,
            brief(e.identity), brief(e.errors), brief(e.value), brief(e.structure))
    return 'raised %s: %s' % (type(e).__name__, brief(str(e)))

def describe_spec(o):
    if o[0] == 'ok':
        return 'return %s' % brief(o[1])
    if o[0] == 'fail':
        return 'raise %s with token among %s at %s' % (
            'InvalidTypeError' if o[1] == 'type' else 'ValidationError', list(o[2]) or
            'the errors of its elements', ''.join(o[4]) if o[4] else '?')
    return 'raise the undefined-field error' if o[0] == 'undefined' else repr(o)

def process_mismatch(real, spec, view):
    """None, or how the real outcome of process differs from the contract's"""
    if real[0] == 'recursion':
        return None
    if real[0] == 'raised' and not isinstance(real[1], (StructuralError, UndefinedFieldError)):
        return 'an exception of the wrong kind'
    if view == 'kind':
        return None
    if spec[0] == 'ok':
        if real[0] != 'ok':
            return 'a valid value was refused'
        if not same(real[1], spec[1]):
            return 'the wrong value was returned'
        return None
    if spec[0] == 'undefined':
        if real[0] == 'raised' and isinstance(real[1], UndefinedFieldError):
            return None
        return 'the undefined placeholder was not reported'
    if real[0] == 'ok':
        return 'an invalid value was accepted'
    return error_mismatch(real[1], spec, view)

def error_mismatch(e, spec, view, child=False):
    if not isinstance(e, StructuralError):
        return 'an exception of the wrong kind'
    if not isinstance(e, ValidationError):
        return 'not a validation error'
    kind = 'type' if isinstance(e, InvalidTypeError) else 'invalid'
    if kind != spec[1]:
        return 'the wrong kind of validation error'
    tokens = [x.get('token') for x in e.errors]
    if spec[2]:
        if len(tokens) != 1 or tokens[0] not in spec[2]:
            return 'the wrong token'
        if e.structure:
            return 'an error about the whole value with a structure'
    else:
        if tokens:
            return 'a token on a structural error'
    if spec[5] is not None:
        m = structure_mismatch(e, spec, view)
        if m:
            return m
    if view == 'location':
        return location_mismatch(e, spec)
    return None

def structure_mismatch(e, spec, view):
    s, want = e.structure, spec[5]
    if isinstance(want, list):
        if not isinstance(s, list) or len(s) != len(want):
            return 'the error structure is not a list of the same length'
        pairs = list(zip(s, want))
    else:
        if not isinstance(s, dict):
            return 'the error structure is not a mapping'
        bad = [k for k, o in want.items() if o is not None]
        if any(k not in s for k in bad):
            return 'an error is missing from the structure'
        if any(k not in want for k in s):
            return 'an error structure with a foreign key'
        pairs = [(s.get(k), o) for k, o in want.items()]
    for x, o in pairs:
        if o is None:
            if isinstance(x, StructuralError):
                return 'an error where the element is valid'
        elif not isinstance(x, StructuralError):
            return 'no error where the element is invalid'
        else:
            m = error_mismatch(x, o, view, True)
            if m:
                return m
    return None

def location_mismatch(e, spec):
    p = spec[6]
    if spec[4] is not None and list(e.identity) != list(spec[4]):
        return 'the wrong identity: %r' % (e.identity,)
    if e.field is None or type(e.field).__name__.lower() != p.type:
        return 'not the field that raised it'
    if p.real is not None and e.field is not p.real and not p.loose:
        return 'not the field that raised it'
    if not any(e.value is v or same(e.value, v) for v in spec[3]):
        return 'not the offending value: %s' % brief(e.value)
    for x in e.errors:
        d = e.field.errors.get(x.get('token'))
        if d is None or x.get('title') != d.title or not isinstance(x.get('message'), str):
            return 'not the title and message of the token'
        if '%(field)s' in d.message and (e.field.name or 'unknown-field') not in x['message']:
            return 'a message without the name of the field'
    return None
