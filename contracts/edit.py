"""Contracts of filtering and transforming a schema, and of editing a structure.

Outcomes: ('self',) the very field; ('none',) None; ('cannot',) CannotFilterError; ('raised',) the transformer raised;
('field', f) the field f; ('clone', overrides) a copy of the field with these parameters instead of its own."""
from contracts.prim import attribute, child_filter, child_transform, hook, is_field, own_field

STRUCTURAL = ('sequence', 'tuple', 'map', 'structure', 'union')

def passes(p, every, params):
    """some (every) parameter equals the attribute of the field, a missing one counting as False; no parameter always
    passes"""
    if not params:
        return True
    for k, v in params.items():
        a = attribute(p, k)
        if a is None:
            a = False
        if a == v:
            if not every:
                return True
        elif every:
            return False
    return every

def filter(p, every, params):
    if not passes(p, every, params):
        return ('none',)
    t = p.type
    if t in ('sequence', 'map'):
        c = p.item if t == 'sequence' else p.value
        o = child_filter(c, every, params)
        if o[0] != 'ok':
            return o
        if o[1] is None:
            return ('cannot',)
        if o[1] is c:
            return ('self',)
        return ('clone', {'item': o[1]} if t == 'sequence' else {'value': o[1]})
    if t == 'tuple':
        out, changed = [], False
        for c in p.values:
            o = child_filter(c, every, params)
            if o[0] != 'ok':
                return o
            if o[1] is None:
                return ('cannot',)
            if o[1] is not c:
                changed = True
            out.append(o[1])
        return ('clone', {'values': tuple(out)}) if changed else ('self',)
    if t == 'structure':
        out, changed = {}, False
        for k, c in p.structure.items():
            o = child_filter(c, every, params)
            if o[0] != 'ok':
                return o
            if o[1] is not c:
                changed = True
            if o[1] is not None:
                out[k] = o[1]
        return ('clone', {'structure': out}) if changed else ('self',)
    return ('self',)

def transform(p, fn):
    o = hook(fn, (own_field(p),))
    if o[0] != 'ok':
        return o
    if is_field(o[1]):
        return ('field', o[1])
    t = p.type
    if o[1] is False or t not in STRUCTURAL:
        return ('self',)
    if t in ('sequence', 'map'):
        c = p.item if t == 'sequence' else p.value
        o = child_transform(c, fn)
        if o[0] != 'ok':
            return o
        if o[1] is c:
            return ('self',)
        return ('clone', {'item': o[1]} if t == 'sequence' else {'value': o[1]})
    if t in ('tuple', 'union'):
        out, changed = [], False
        for c in (p.values if t == 'tuple' else p.fields):
            o = child_transform(c, fn)
            if o[0] != 'ok':
                return o
            if o[1] is not c:
                changed = True
            out.append(o[1])
        if not changed:
            return ('self',)
        return ('clone', {'values': tuple(out)} if t == 'tuple' else {'fields': tuple(out)})
    out, changed = {}, False
    for k, c in p.structure.items():
        o = child_transform(c, fn)
        if o[0] != 'ok':
            return o
        if o[1] is not c:
            changed = True
        out[k] = o[1]
    return ('clone', {'structure': out}) if changed else ('self',)
