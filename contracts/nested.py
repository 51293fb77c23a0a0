"""Contracts of the utilities for nested values.

Outcomes: ('ok', value); ('type',) TypeError; ('missing',) KeyError."""
from contracts.prim import child_merge, write

def traverse(v, keys):
    """the value reached from v by following the keys"""
    for k in keys:
        if not isinstance(v, dict):
            return ('type',)
        if k not in v:
            return ('missing',)
        v = v[k]
    return ('ok', v)

def assign(v, keys, x):
    """sets the addressed entry, and nothing else"""
    out = traverse(v, keys[:-1])
    if out[0] != 'ok':
        return out
    if not isinstance(out[1], dict):
        return ('type',)
    write(out[1], keys[-1], x)
    return ('ok', None)

def merge(a, b):
    """merges b into a: mappings under the same key are merged, the addition wins elsewhere"""
    for k, v in b.items():
        if k in a and isinstance(a[k], dict) and isinstance(v, dict):
            v = child_merge(a[k], v)
        a[k] = v
    return ('ok', a)
