"""Contracts of the constructors: which arguments are refused, and what the attributes of the field are otherwise.

Outcomes: ('refused',) TypeError or ValueError; ('ok', attributes)."""
import re
from datetime import date, datetime, time
from decimal import Decimal as decimal

from scheme.timezone import LOCAL, UTC
from contracts.prim import awaited, is_field, named, standing
from contracts.values import as_date, as_decimal, as_time, split

BOUNDED = ('integer', 'float', 'decimal', 'date', 'datetime', 'time')
REFUSED = ('refused',)

def native(x):
    return isinstance(x, (int, float, str, type(None), dict, list, tuple))

def bound(t, x, zone):
    """a bound of the field's type, or text that spells one"""
    if x is None:
        return ('ok', None)
    try:
        if t == 'integer':
            return ('ok', x) if isinstance(x, int) else REFUSED
        if t == 'float':
            return ('ok', x) if isinstance(x, float) else REFUSED
        if t == 'decimal':
            x = as_decimal(x)
            return ('ok', x) if isinstance(x, decimal) and not x.is_nan() else REFUSED
        if t == 'date':
            return ('ok', as_date(x)) if isinstance(x, (date, str)) else REFUSED
        if t == 'time':
            return ('ok', as_time(x)) if isinstance(x, (time, str)) else REFUSED
        if isinstance(x, str):
            x = instant(x)
        elif not isinstance(x, datetime):
            return REFUSED
        if x.tzinfo is None:
            return ('ok', x.replace(tzinfo=zone))
        if x.tzinfo is zone:
            return ('ok', x)
        return ('ok', x.astimezone(zone))
    except Exception:
        return REFUSED

def instant(x):
    from time import strptime
    return datetime(*strptime(x, '%Y-%m-%dT%H:%M:%SZ')[:6]).replace(tzinfo=UTC)

def length(n):
    return n is None or isinstance(n, int) and n >= 0

def lengths(t, a, out):
    least = a['min_length']
    if least is None and a['nonempty'] and t in ('text', 'binary'):
        least = 1
    if not length(least) or not length(a['max_length']):
        return REFUSED
    out['min_length'], out['max_length'] = least, a['max_length']
    return ('ok', out)

def keys(x):
    """a list of keys, or text that lists them"""
    return x.split(' ') if isinstance(x, str) else x

def build(t, a):
    out = {'name': a['name'], 'default': a['default'], 'constant': a['constant'], 'ignore_null': a['ignore_null'],
        'nonnull': a['nonnull'] or a['nonempty'], 'required': a['required'] or a['nonempty']}
    if t in BOUNDED:
        zone = None
        if t == 'datetime':
            zone = UTC if a['utc'] else LOCAL
            out['utc'] = a['utc']
            out['timezone'] = zone
        for k in ('minimum', 'maximum'):
            o = bound(t, a[k], zone)
            if o[0] != 'ok':
                return REFUSED
            out[k] = o[1]
        return ('ok', out)
    if t == 'text':
        out['strip'], out['pattern'] = a['strip'], a['pattern']
        if isinstance(a['pattern'], str):
            try:
                out['pattern'] = re.compile(a['pattern'])
            except re.error:
                return REFUSED
        return lengths(t, a, out)
    if t == 'binary':
        return lengths(t, a, out)
    if t == 'token':
        out['segments'] = a['segments']
        return ('ok', out)
    if t == 'enumeration':
        xs = keys(a['enumeration'])
        for x in xs:
            if not native(x):
                return REFUSED
        ys = keys(a['ignored_values'])
        if ys is not None:
            if not isinstance(ys, list):
                return REFUSED
            for y in ys:
                if not native(y):
                    return REFUSED
        out['enumeration'], out['ignored_values'] = xs, ys
        return ('ok', out)
    if t == 'sequence':
        o = standing(a['item'])
        if o[0] == 'neither':
            return REFUSED
        if o[0] == 'waits':
            awaited(a['item'], 'item')
        out['item'], out['unique'] = o[1], a['unique']
        return lengths(t, a, out)
    if t == 'map':
        o = standing(a['value'])
        if o[0] == 'neither':
            return REFUSED
        if o[0] == 'waits':
            awaited(a['value'], 'value')
        if a['key'] is not None and not is_field(a['key']):
            return REFUSED
        rk = keys(a['required_keys'])
        if rk is not None and not isinstance(rk, (list, tuple)):
            return REFUSED
        out['value'], out['key'], out['required_keys'] = o[1], a['key'], rk
        return ('ok', out)
    if t in ('tuple', 'union'):
        k = 'values' if t == 'tuple' else 'fields'
        if not isinstance(a[k], (list, tuple)) or not a[k]:
            return REFUSED
        children = []
        for i, c in enumerate(a[k]):
            o = standing(c)
            if o[0] == 'neither':
                return REFUSED
            if o[0] == 'waits':
                awaited(c, i)
            children.append(o[1])
        out[k] = tuple(children)
        return ('ok', out)
    if t == 'structure':
        if not isinstance(a['structure'], dict):
            return REFUSED
        ko = a['key_order']
        if not ko:
            ko = None
        ko = keys(ko)
        if ko is not None and not isinstance(ko, list):
            return REFUSED
        members = {}
        for k, c in a['structure'].items():
            o = standing(c)
            if o[0] == 'neither':
                return REFUSED
            if o[0] == 'waits':
                awaited(c, k)
            else:
                named(o[1], k)
            members[k] = o[1]
        out['structure'], out['strict'], out['key_order'] = members, a['strict'], ko
        out['polymorphic_on'] = None
        return ('ok', out)
    return ('ok', out)

def define(entries, field):
    """every function registered with a placeholder is called once, in order, with the field and its own arguments"""
    for function, args in entries:
        function(field, *args)
