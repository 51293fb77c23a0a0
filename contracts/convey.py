"""Contracts of screening, extraction, instantiation and interpolation for every field type.

Outcomes: ('ok', value), ('excluded',) FieldExcludedError, ('cannot',) CannotExtractError or
CannotInterpolateError, ('undefined',) UndefinedFieldError, ('undefparam',) UndefinedParameterError,
('other',) left open.
"""
from datetime import date, datetime, time
from decimal import Decimal as decimal

from contracts.prim import (attribute, child_extract, child_instantiate, child_interpolate,
    child_matches, convert, evaluate, hook, own_field, render)
from contracts import values as V

STRUCTURAL = ('sequence', 'tuple', 'map', 'structure', 'union')

def screen(p, params):
    """every screening parameter that is not None equals the field's attribute"""
    for k, v in params.items():
        if v is not None and attribute(p, k) != v:
            return False
    return True

# ---------------------------------------------------------------- extraction
def extract(p, v, strict, params):
    if p.type == 'undefined':
        return ('undefined',) if p.field is None else extract(p.field, v, strict, params)
    if params and not screen(p, params):
        return ('excluded',)
    if v is None:
        return ('ok', None)
    if p.extractor is not None:
        o = hook(p.extractor, (own_field(p), v))
        if o[0] != 'ok':
            return ('cannot',)
        v = o[1]
    if p.type not in STRUCTURAL:
        return ('ok', v)
    if p.type == 'sequence':
        return extract_sequence(p, v, strict, params)
    if p.type == 'tuple':
        return extract_tuple(p, v, strict, params)
    if p.type == 'map':
        return extract_map(p, v, strict, params)
    if p.type == 'structure':
        return extract_structure(p, v, strict, params)
    return extract_union(p, v, strict, params)

def extract_sequence(p, v, strict, params):
    if not isinstance(v, (list, tuple)):
        return ('cannot',)
    out = []
    for x in v:
        o = child_extract(p.item, x, strict, params)
        if o[0] == 'ok':
            out.append(o[1])
        elif o[0] != 'excluded':
            return o
    return ('ok', out)

def extract_tuple(p, v, strict, params):
    if not isinstance(v, (list, tuple)) or len(v) < len(p.values):
        return ('cannot',)
    out = []
    for i, c in enumerate(p.values):
        o = child_extract(c, v[i], strict, params)
        if o[0] == 'ok':
            out.append(o[1])
        elif o[0] != 'excluded':
            return o
    return ('ok', tuple(out))

def extract_map(p, v, strict, params):
    if not isinstance(v, dict):
        return ('cannot',)
    out = {}
    for k, x in v.items():
        o = child_extract(p.value, x, strict, params)
        if o[0] == 'ok':
            out[k] = o[1]
        elif o[0] != 'excluded':
            return o
    return ('ok', out)

def present(v, k):
    """the part of the subject under the key: (whether there is one, the part)"""
    if isinstance(v, dict):
        return (k in v, v[k] if k in v else None)
    return (hasattr(v, k), getattr(v, k, None))

def extract_structure(p, v, strict, params):
    if not isinstance(v, dict) and strict:
        return ('cannot',)
    definition = p.structure
    if p.polymorphic_on is not None:
        there, identity = present(v, p.polymorphic_on.name)
        if not there or not V.hashable(identity) or identity not in p.structure:
            return ('cannot',)
        definition = p.structure[identity]
    out = {}
    for k, c in definition.items():
        there, x = present(v, k)
        if not there or x is None:
            continue
        o = child_extract(c, x, strict, params)
        if o[0] == 'ok':
            out[k] = o[1]
        elif o[0] != 'excluded':
            return o
    return ('ok', out)

def extract_union(p, v, strict, params):
    for c in p.fields:
        o = child_extract(c, v, strict, params)
        if o[0] != 'cannot':
            return o
    return ('cannot',)

# ---------------------------------------------------------------- instantiation
def instantiate(p, v, key):
    if p.type == 'undefined':
        return ('undefined',) if p.field is None else instantiate(p.field, v, key)
    if v is None:
        return ('ok', None)
    if p.type == 'sequence':
        out = []
        for x in v:
            o = child_instantiate(p.item, x, None)
            if o[0] != 'ok':
                return o
            out.append(o[1])
        v = out
    elif p.type == 'tuple':
        out = []
        for i, c in enumerate(p.values):
            o = child_instantiate(c, v[i], None)
            if o[0] != 'ok':
                return o
            out.append(o[1])
        v = tuple(out)
    elif p.type == 'map':
        out = {}
        for k, x in v.items():
            o = child_instantiate(p.value, x, k)
            if o[0] != 'ok':
                return o
            out[k] = o[1]
        v = out
    elif p.type == 'structure':
        definition = p.structure
        if p.polymorphic_on is not None:
            definition = p.structure[v[p.polymorphic_on.name]]
        out = {}
        for k, x in v.items():
            o = child_instantiate(definition[k], x, k)
            if o[0] != 'ok':
                return o
            out[k] = o[1]
        v = out
    if p.instantiator is not None:
        return hook(p.instantiator, (own_field(p), v, key))
    return ('ok', v)

# ---------------------------------------------------------------- interpolation
NATIVE = {'boolean': bool, 'binary': bytes, 'date': date, 'datetime': datetime, 'time': time,
    'decimal': decimal}

def interpolate(p, v, params):
    t = p.type
    if t == 'undefined':
        return ('undefined',) if p.field is None else interpolate(p.field, v, params)
    if v is None:
        return ('ok', None)
    if t in STRUCTURAL:
        return interpolate_container(p, v, params)
    if t in ('integer', 'float'):
        if isinstance(v, (int, float)):
            return convert(int if t == 'integer' else float, v)
    elif t in ('text', 'token'):
        return render(v, params)
    elif t == 'enumeration':
        if V.member_of(v, V.split(p.enumeration)):
            return ('ok', v)
        o = evaluate(v, params)
        if o[0] == 'ok' and not V.member_of(o[1], V.split(p.enumeration)):
            return ('cannot',)
        return o
    elif t in NATIVE and isinstance(v, NATIVE[t]):
        return ('ok', v)
    o = evaluate(v, params)
    if o[0] == 'ok' and t in ('integer', 'float', 'decimal'):
        return convert({'integer': int, 'float': float, 'decimal': decimal}[t], o[1])
    return o

def interpolate_container(p, v, params):
    if isinstance(v, str):
        o = evaluate(v, params)
        if o[0] != 'ok':
            return o
        v = o[1]
    t = p.type
    if t == 'union':
        for c in p.fields:
            o = child_interpolate(c, v, params)
            if o[0] != 'cannot':
                return o
        return ('cannot',)
    if t in ('sequence', 'tuple'):
        if not isinstance(v, (list, tuple)):
            return ('cannot',)
        if t == 'tuple' and len(v) < len(p.values):
            return ('cannot',)
        out = []
        if t == 'tuple':
            for i, c in enumerate(p.values):
                o = child_interpolate(c, v[i], params)
                if o[0] != 'ok':
                    return o
                out.append(o[1])
            return ('ok', tuple(out))
        for x in v:
            o = child_interpolate(p.item, x, params)
            if o[0] != 'ok':
                return o
            out.append(o[1])
        return ('ok', out)
    if not isinstance(v, dict):
        return ('cannot',)
    out = {}
    if t == 'map':
        for k, x in v.items():
            o = child_interpolate(p.value, x, params)
            if o[0] == 'ok':
                out[k] = o[1]
            elif o[0] != 'undefparam':
                return o
        return ('ok', out)
    definition = p.structure
    if p.polymorphic_on is not None:
        name = p.polymorphic_on.name
        if name not in v or not V.hashable(v[name]) or v[name] not in p.structure:
            return ('cannot',)
        definition = p.structure[v[name]]
    for k, c in definition.items():
        if k in v:
            o = child_interpolate(c, v[k], params)
            if o[0] == 'ok':
                out[k] = o[1]
            elif o[0] != 'undefparam':
                return o
    return ('ok', out)
