"""Contracts of describing a parameter of a field, and of rebuilding one from its description."""
from contracts.prim import child_describe, child_rebuild, deeper, is_field

def describe_parameter(x):
    """-> ('ok', description), ('cannot',)"""
    if isinstance(x, dict):
        return ('ok', dict((k, deeper(v)) for k, v in x.items()))
    if isinstance(x, list):
        return ('ok', [deeper(v) for v in x])
    if isinstance(x, tuple):
        return ('ok', tuple([deeper(v) for v in x]))
    if is_field(x):
        return ('ok', child_describe(x))
    if x is None or isinstance(x, (bool, int, float, str)):
        return ('ok', x)
    return ('cannot',)

def rebuild_parameter(x):
    if isinstance(x, dict):
        if isinstance(x.get('fieldtype'), str):
            return ('ok', child_rebuild(x))
        return ('ok', dict((k, deeper(v)) for k, v in x.items()))
    if isinstance(x, list):
        return ('ok', [deeper(v) for v in x])
    if isinstance(x, tuple):
        return ('ok', tuple([deeper(v) for v in x]))
    return ('ok', x)
