"""Contracts of null handling, conversion and validation of each field type."""
from base64 import urlsafe_b64decode, urlsafe_b64encode
from datetime import date, datetime, time
from decimal import Decimal as decimal
from time import strptime

from scheme.timezone import LOCAL, UTC
from contracts.prim import (child_default, child_ignores_null, child_process, child_required, hook,
    is_token, is_uuid, matches)

INVALID = ('type', ('invalid',))

def root_name(p):
    return p.name or '(%s)' % p.type

def nonnull(p):
    return p.nonnull or p.nonempty

def is_null(p, v):
    if p.type == 'enumeration' and p.ignored_values is not None:
        return v is None or member_of(v, split(p.ignored_values))
    return v is None

def container(p, v):
    if p.type == 'sequence':
        return isinstance(v, list)
    if p.type == 'tuple':
        return isinstance(v, (list, tuple))
    return isinstance(v, dict)

def split(keys):
    """a list of keys, given as a list or as space delimited text"""
    if keys is None:
        return []
    if isinstance(keys, str):
        return keys.split(' ')
    return keys

def hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False

def differs(a, b):
    try:
        return a != b
    except Exception:
        return True

def member_of(v, xs):
    try:
        return v in xs
    except Exception:
        return False

def duplicates(xs):
    """two of the elements are equal"""
    for i, x in enumerate(xs):
        if x in xs[:i]:
            return True
    return False

def default(c):
    return child_default(c)

def required(c):
    return child_required(c)

def ignores_null(c):
    return child_ignores_null(c)

def minimum_length(p):
    if p.nonempty and p.min_length is None:
        return 1
    return p.min_length

# ---------------------------------------------------------------- bounds
def as_date(x):
    if isinstance(x, datetime):
        return x.date()
    if isinstance(x, str):
        return date(*strptime(x, '%Y-%m-%d')[:3])
    return x

def as_instant(p, x):
    """a datetime in the field's timezone"""
    zone = UTC if p.utc else LOCAL
    if isinstance(x, str):
        x = datetime(*strptime(x, '%Y-%m-%dT%H:%M:%SZ')[:6]).replace(tzinfo=UTC)
    if x is None:
        return None
    if x.tzinfo is None:
        return x.replace(tzinfo=zone)
    if x.tzinfo is zone:
        return x
    return x.astimezone(zone)

def as_time(x):
    if isinstance(x, str):
        return time(*strptime(x, '%H:%M:%S')[3:6])
    return x

def as_decimal(x):
    if isinstance(x, str):
        return decimal(x)
    return x

def in_range(v, least, most):
    tokens = []
    if least is not None and v < least:
        tokens.append('minimum')
    if most is not None and v > most:
        tokens.append('maximum')
    if tokens:
        return ('invalid', tuple(tokens), v)
    return ('ok', v)

def in_lengths(v, least, most, tokens):
    if least is not None and len(v) < least:
        tokens.append('min_length')
    if most is not None and len(v) > most:
        tokens.append('max_length')
    if tokens:
        return ('invalid', tuple(tokens), v)
    return ('ok', v)

# ---------------------------------------------------------------- validation
def validate(p, v):
    """('ok', value) or (kind, tokens, offending value)"""
    t = p.type
    if t == 'integer':
        if isinstance(v, bool) or not isinstance(v, int):
            return ('type', ('invalid',), v)
        return in_range(v, p.minimum, p.maximum)
    if t == 'float':
        if not isinstance(v, float):
            return ('type', ('invalid',), v)
        return in_range(v, p.minimum, p.maximum)
    if t == 'decimal':
        if not isinstance(v, decimal) or v.is_nan():
            return ('type', ('invalid',), v)
        return in_range(v, as_decimal(p.minimum), as_decimal(p.maximum))
    if t == 'date':
        if not isinstance(v, date):
            return ('type', ('invalid',), v)
        if isinstance(v, datetime):
            v = v.date()
        return in_range(v, as_date(p.minimum), as_date(p.maximum))
    if t == 'datetime':
        if not isinstance(v, datetime):
            return ('type', ('invalid',), v)
        try:
            v = as_instant(p, v)
        except (OverflowError, ValueError):
            return ('invalid', ('overflow',), v)
        try:
            return in_range(v, as_instant(p, p.minimum), as_instant(p, p.maximum))
        except OverflowError:
            return ('invalid', ('overflow',), v)
    if t == 'time':
        if not isinstance(v, time):
            return ('type', ('invalid',), v)
        least, most = as_time(p.minimum), as_time(p.maximum)
        for bound in (least, most):
            if bound is not None and (bound.utcoffset() is None) != (v.utcoffset() is None):
                return ('type', ('invalid',), v)
        return in_range(v, least, most)
    if t == 'boolean':
        if not isinstance(v, bool):
            return ('type', ('invalid',), v)
        return ('ok', v)
    if t == 'text':
        if not isinstance(v, str):
            return ('type', ('invalid',), v)
        if p.strip:
            v = v.strip()
        tokens = []
        if p.pattern is not None and not matches(p.pattern, v):
            tokens.append('pattern')
        return in_lengths(v, minimum_length(p), p.max_length, tokens)
    if t == 'binary':
        if not isinstance(v, bytes):
            return ('type', ('invalid',), v)
        return in_lengths(v, minimum_length(p), p.max_length, [])
    if t == 'token':
        if not isinstance(v, str) or not is_token(v):
            return ('type', ('invalid',), v)
        if p.segments is not None and v.count(':') + 1 != p.segments:
            return ('invalid', ('invalid',), v)
        return ('ok', v)
    if t == 'uuid':
        if not isinstance(v, str) or not is_uuid(v):
            return ('type', ('invalid',), v)
        return ('ok', v)
    if t == 'enumeration':
        if not member_of(v, split(p.enumeration)):
            return ('type', ('invalid',), v)
        return ('ok', v)
    return ('ok', v)

# ---------------------------------------------------------------- conversion
def unserialize(p, v):
    """('ok', value) or (kind, tokens)"""
    t = p.type
    try:
        if t == 'integer':
            if isinstance(v, bool):
                return INVALID
            return ('ok', int(v))
        if t == 'float':
            return ('ok', float(v))
        if t == 'decimal':
            if isinstance(v, decimal):
                return ('ok', v)
            return ('ok', decimal(v))
        if t == 'date':
            if isinstance(v, datetime):
                return ('ok', v.date())
            if isinstance(v, date):
                return ('ok', v)
            return ('ok', date(*strptime(v, '%Y-%m-%d')[:3]))
        if t == 'datetime':
            if isinstance(v, datetime):
                return ('ok', v)
            return ('ok', datetime(*strptime(v, '%Y-%m-%dT%H:%M:%SZ')[:6]).replace(tzinfo=UTC))
        if t == 'time':
            if isinstance(v, time):
                return ('ok', v)
            return ('ok', time(*strptime(v, '%H:%M:%S')[3:6]))
        if t == 'binary':
            if not isinstance(v, bytes):
                return INVALID
            return ('ok', urlsafe_b64decode(v))
    except Exception:
        return INVALID
    return ('ok', v)

def serialize(p, v):
    """('ok', text) or (kind, tokens)"""
    t = p.type
    if t == 'decimal':
        return ('ok', str(v))
    if t == 'date':
        return ('ok', v.strftime('%Y-%m-%d'.replace('%Y', '%04d' % v.year)))
    if t == 'datetime':
        if v.tzinfo is not UTC:
            try:
                v = v.astimezone(UTC)
            except OverflowError:
                return ('invalid', ('overflow',))
        return ('ok', v.strftime('%Y-%m-%dT%H:%M:%SZ'.replace('%Y', '%04d' % v.year)))
    if t == 'time':
        return ('ok', v.strftime('%H:%M:%S'))
    if t == 'binary':
        return ('ok', urlsafe_b64encode(v))
    if t == 'enumeration':
        # the member it equals
        if not isinstance(v, (int, float, str, type(None), dict, list, tuple)):
            for x in split(p.enumeration):
                if x == v:
                    return ('ok', x)
    return ('ok', v)

# ---------------------------------------------------------------- polymorphism
def discriminate(p, v, phase, ser, path):
    """('ok', the fields of the variant the value's discriminator names) or a failure"""
    d = p.polymorphic_on
    if d.name not in v or v[d.name] is None:
        return ('fail', 'invalid', ('required',), (None, v), path, None, p)
    o = child_process(d, v[d.name], phase, ser and phase == 'inbound', path + ['.' + d.name])
    if o[0] != 'ok':
        return o
    if not hashable(o[1]) or o[1] not in p.structure:
        return ('fail', 'invalid', ('unrecognized',), (o[1], v), path, None, p)
    return ('ok', p.structure[o[1]])

def member(p, k, c):
    return c
