"""Contract of Field.process for every field type: outcome as a function of the constructor's
parameters p, the value, the phase, the serialized flag and the path to the value.

Outcomes: ('ok', value)
          ('fail', kind, tokens, values, path, structure, p)   a validation error
              kind       'type' (InvalidTypeError) or 'invalid'
              tokens     the tokens that may be reported (any one of them), () for a structural error
              values     the acceptable offending values
              path       the identity, or None where it is left open
              structure  None, or the outcomes of the elements (None for a valid one)
              p          the record of the field that raises it
          ('undefined',)                                          the undefined-field error
"""
from base64 import urlsafe_b64decode, urlsafe_b64encode
from datetime import date, datetime, time
from decimal import Decimal as decimal
from time import strptime

from contracts.prim import child_process, hook, is_undefined
from contracts import values as V

def fail(p, kind, tokens, values, path):
    return ('fail', kind, tokens, values, path, None, p)

def process(p, v, phase, ser, path, partial=False):
    if not path:
        path = [V.root_name(p)]
    if p.type == 'undefined':
        if p.field is None:
            return ('undefined',)
        return process(p.field, v, phase, ser, path, partial)
    if V.is_null(p, v):
        if V.nonnull(p):
            return fail(p, 'invalid', ('nonnull',), (None, v), path)
        return ('ok', None)
    if p.type == 'union':
        return process_union(p, v, phase, ser, path)
    if p.type in ('sequence', 'tuple', 'map', 'structure'):
        return process_container(p, v, phase, ser, path, partial)
    return process_scalar(p, v, phase, ser, path)

# ---------------------------------------------------------------- scalars
def process_scalar(p, v, phase, ser, path):
    if ser and phase == 'inbound':
        o = V.unserialize(p, v)
        if o[0] != 'ok':
            return fail(p, o[0], o[1], (v,), path)
        v = o[1]
    given = v
    if p.preprocessor is not None:
        o = hook(p.preprocessor, (v,))
        if o[0] != 'ok':
            return fail(p, 'type', ('invalid',), (v,), path)
        v = o[1]
    if p.constant is not None and V.differs(v, p.constant):
        return fail(p, 'type', ('invalid',), (v,), path)
    o = V.validate(p, v)
    if o[0] != 'ok':
        return fail(p, o[0], o[1], (v, o[2], given), path)
    v = o[1]
    if ser and phase == 'outbound':
        o = V.serialize(p, v)
        if o[0] != 'ok':
            return fail(p, o[0], o[1], (v,), path)
        v = o[1]
    return ('ok', v)

# ---------------------------------------------------------------- containers
def process_container(p, v, phase, ser, path, partial):
    if not V.container(p, v):
        return fail(p, 'type', ('invalid',), (v,), path)
    if p.preprocessor is not None:
        o = hook(p.preprocessor, (v,))
        if o[0] != 'ok':
            return fail(p, 'type', ('invalid',), (v,), path)
        v = o[1]
        if not V.container(p, v):
            return fail(p, 'type', ('invalid',), (v,), path)
    if p.type == 'sequence':
        return process_sequence(p, v, phase, ser, path)
    if p.type == 'tuple':
        return process_tuple(p, v, phase, ser, path)
    if p.type == 'map':
        return process_map(p, v, phase, ser, path)
    return process_structure(p, v, phase, ser, path, partial)

def process_sequence(p, v, phase, ser, path):
    tokens = []
    if p.min_length is not None and len(v) < p.min_length:
        tokens.append('min_length')
    if p.max_length is not None and len(v) > p.max_length:
        tokens.append('max_length')
    if tokens:
        return fail(p, 'invalid', tuple(tokens), (v,), path)
    results, structure, good = [], [], True
    for i, x in enumerate(v):
        o = child_process(p.item, x, phase, ser, path + ['[%s]' % i])
        if o[0] == 'undefined':
            return o
        if o[0] == 'ok':
            results.append(o[1])
            structure.append(None)
        else:
            good = False
            structure.append(o)
    if not good:
        return ('fail', 'invalid', (), (v,), path, structure, p)
    if p.unique and V.duplicates(results):
        return fail(p, 'invalid', ('duplicate',), (v,), path)
    return ('ok', results)

def process_tuple(p, v, phase, ser, path):
    if len(v) != len(p.values):
        return fail(p, 'invalid', ('length',), (v,), path)
    results, structure, good = [], [], True
    for i, c in enumerate(p.values):
        o = child_process(c, v[i], phase, ser, path + ['[%s]' % i])
        if o[0] == 'undefined':
            return o
        if o[0] == 'ok':
            results.append(o[1])
            structure.append(None)
        else:
            good = False
            structure.append(o)
    if not good:
        return ('fail', 'invalid', (), (v,), path, structure, p)
    return ('ok', tuple(results))

def process_map(p, v, phase, ser, path):
    results, structure, good, undefined = {}, {}, True, False
    for k, x in v.items():
        if p.key is not None:
            o = child_process(p.key, k, phase, ser, path + ['[%s]' % (k,)])
            if o[0] == 'undefined':
                return o
            if o[0] != 'ok' or not V.hashable(o[1]):
                return fail(p, 'invalid', ('invalidkeys',), (v,), path)
            k = o[1]
        elif not isinstance(k, str):
            return fail(p, 'invalid', ('invalidkeys',), (v,), path)
        o = child_process(p.value, x, phase, ser, path + ['[%s]' % (k,)])
        if o[0] == 'undefined':
            return o
        if o[0] == 'ok':
            results[k] = o[1]
            structure[k] = None
        else:
            good = False
            structure[k] = o
    for k in V.split(p.required_keys):
        if k not in structure:
            good = False
            structure[k] = ('fail', 'invalid', ('required',), (None,), path, None, p)
    if not good:
        return ('fail', 'invalid', (), (v,), path, structure, p)
    return ('ok', results)

def process_structure(p, v, phase, ser, path, partial):
    definition = p.structure
    if p.polymorphic_on is not None:
        o = V.discriminate(p, v, phase, ser, path)
        if o[0] != 'ok':
            return o
        definition = o[1]
    results, structure, good = {}, {}, True
    for k, c in definition.items():
        if k in v:
            x = v[k]
        elif partial:
            continue
        elif is_undefined(c):
            return ('undefined',)
        elif phase == 'inbound' and V.default(c) is not None:
            x = V.default(c)
        elif V.required(c):
            good = False
            structure[k] = ('fail', 'invalid', ('required',), (None,), path, None, p)
            continue
        else:
            continue
        if is_undefined(c):
            return ('undefined',)
        if V.ignores_null(c) and x is None:
            continue
        o = child_process(V.member(p, k, c), x, phase, ser, path + ['.' + k])
        if o[0] == 'undefined':
            return o
        if o[0] == 'ok':
            results[k] = o[1]
            structure[k] = None
        else:
            good = False
            structure[k] = o
    if p.strict:
        for k in v:
            if k not in definition:
                good = False
                structure[k] = ('fail', 'invalid', ('unknown',), (None,), path, None, p)
    if not good:
        return ('fail', 'invalid', (), (v,), path, structure, p)
    return ('ok', results)

def process_union(p, v, phase, ser, path):
    for c in p.fields:
        o = child_process(c, v, phase, ser, path)
        if o[0] != 'fail' or o[1] != 'type':
            return o
    return fail(p, 'type', ('invalid',), (v,), path)
