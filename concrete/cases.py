"""One generated case per property: builds a schema, drives the real code, compares with the contract.
A case returns None when the property held on it, otherwise a description of the failure."""
import copy
from collections import OrderedDict
from datetime import date, datetime, time
from decimal import Decimal as decimal

from scheme.exceptions import *
from scheme.field import Field, Undefined
from scheme.timezone import UTC
from concrete.records import Rec, SCALARS, STRUCTURAL, build, kids, show, size
from concrete.compare import (attempt, brief, describe_real, describe_spec, process_mismatch, same)
from concrete.gen import Gen, HOOKS, Thing
from contracts import process as P, values as V

PHASES = [('inbound', False), ('outbound', False), ('inbound', True), ('outbound', True)]

def failure(what, rec, **more):
    d = {'what': what, 'schema': show(rec) if isinstance(rec, Rec) else rec}
    for k, v in more.items():
        d[k] = v if isinstance(v, str) else brief(v, 2000)
    return d

def spec_process(rec, v, phase, ser, path=None, **kw):
    try:
        return P.process(rec, v, phase, ser, path, **kw)
    except RecursionError:
        return None

def run_process(rec, v, phase, ser, view, ancestry=None, partial=None, field=None):
    field = field if field is not None else rec.real
    kw = {}
    if partial is not None:
        kw['partial'] = partial
    spec = spec_process(rec, v, phase, ser, list(ancestry) if ancestry else None, **kw)
    real = attempt(field.process, v, phase, ser, list(ancestry) if ancestry else None, **kw)
    if spec is None:
        return None
    m = process_mismatch(real, spec, view)
    if m:
        return failure(m, rec, value=brief(v, 2000), phase=phase, serialized=ser, ancestry=ancestry,
            partial=partial, contract=describe_spec(spec), code=describe_real(real))

def make(rec):
    """builds the real field; None when the constructor refuses the parameters"""
    try:
        build(rec)
        return True
    except (TypeError, ValueError):
        return None
    except (StructuralError, OverflowError, AttributeError):
        return None

def pick_value(g, rec):
    k = g.rng.randrange(10)
    if k < 4:
        return g.value(rec)
    if k < 8:
        return g.value(rec, g.pick([0.95, 0.85, 0.6, 0.3]))
    if k < 9:
        return g.bad(rec, 0.5)
    return g.any(2)

def processing(rng, types, view, depth=2, serialized=True, **opts):
    g = Gen(rng, **opts)
    rec = g.schema(depth, g.pick(types))
    if not make(rec):
        return None
    for _ in range(6):
        v = pick_value(g, rec)
        phase, ser = g.pick(PHASES) if serialized else (g.pick(['inbound', 'outbound']), False)
        w = v
        if phase == 'inbound' and ser and g.p(0.8):
            w = g.serialized(rec, v)
        anc = g.pick([None, None, None, ['root', '.x'], []])
        partial = None
        if rec.type == 'structure':
            partial = g.pick([None, None, False, True])
        bad = run_process(rec, w, phase, ser, view, anc, partial)
        if bad:
            return bad
    return None

def c01(rng):
    return processing(rng, ['integer', 'float', 'decimal', 'date', 'datetime', 'time'], 'outcome',
        serialized=False, hooks=False, constants=False)

def c02(rng):
    return processing(rng, ['text', 'binary', 'boolean', 'token', 'uuid', 'enumeration'], 'outcome',
        serialized=False, hooks=False, constants=False)

EVERY = list(SCALARS) + ['sequence', 'tuple', 'map', 'structure', 'union'] * 2

def c03(rng):
    g = Gen(rng, undefined=True)
    g.spite = g.oddkeys = True
    r = rng.random()
    if r < 0.12:
        g.leaves = g.leaves + ['email', 'definition', 'error', 'field']
        rec = g.schema(0, g.pick(['email', 'definition', 'error', 'field']))
        if rec.type == 'email' and g.p(0.5):
            rec.multiple = True
    else:
        rec = g.schema(2, g.pick(EVERY))
    if not make(rec):
        return None
    for _ in range(6):
        v = pick_value(g, rec)
        phase, ser = g.pick(PHASES)
        if phase == 'inbound' and ser and g.p(0.6):
            v = g.serialized(rec, v)
        if rec.type == 'definition' and g.p(0.5):
            v = {'fieldtype': g.pick(['integer', 'text', 'nope', 'sequence', None])}
        if rec.type == 'error' and g.p(0.5):
            v = (g.any(1), g.any(1))
        real = attempt(rec.real.process, v, phase, ser)
        if real[0] == 'raised' and not isinstance(real[1], (StructuralError, UndefinedFieldError)):
            return failure('an exception of the wrong kind', rec, value=v, phase=phase, serialized=ser,
                contract='a result or a validation error', code=describe_real(real))
    return None

def c04(rng):
    g = Gen(rng, hooks=True)
    rec = g.schema(1, g.pick(EVERY))
    if g.p(0.3):
        rec.nonempty = True
    if g.p(0.3):
        rec.__dict__.pop('preprocessor', None)
    if not make(rec):
        return None
    nonnull = V.nonnull(rec)
    vs = [None]
    if rec.type == 'enumeration' and rec.ignored_values is not None:
        vs += [x for x in V.split(rec.ignored_values)]
    for v in vs:
        for phase, ser in PHASES:
            real = attempt(rec.real.process, v, phase, ser)
            ok = (real[0] == 'ok' and real[1] is None) if not nonnull else (real[0] == 'raised' and
                isinstance(real[1], ValidationError) and [e.get('token') for e in real[1].errors] == ['nonnull'])
            if not ok:
                return failure('a null value mishandled', rec, value=v, phase=phase, serialized=ser,
                    contract='nonnull error' if nonnull else 'None', code=describe_real(real))
    for v in (0, False, '', [], (), {}, b'', 0.0, decimal(0), time(0, 0), g.any(1)):
        if v is None or (rec.type == 'enumeration' and V.is_null(rec, v)):
            continue
        for phase, ser in PHASES:
            real = attempt(rec.real.process, v, phase, ser)
            if real[0] == 'raised' and isinstance(real[1], ValidationError) and real[1].structure is None and \
                    'nonnull' in [e.get('token') for e in real[1].errors] and real[1].field is rec.real:
                return failure('a non-null value treated as null', rec, value=v, phase=phase, serialized=ser,
                    contract='not the nonnull error', code=describe_real(real))
            if real[0] == 'ok' and real[1] is None and not rec.preprocessor and rec.type not in ('union', 'enumeration'):
                return failure('a non-null value treated as null', rec, value=v, phase=phase, serialized=ser,
                    contract='not None', code=describe_real(real))
    if rec.nonempty:
        if not (rec.real.nonnull and rec.real.required):
            return failure('nonempty does not imply nonnull and required', rec)
        if rec.type in ('text', 'binary'):
            want = rec.min_length if rec.min_length is not None else 1
            if rec.real.min_length != want:
                return failure('nonempty does not give the minimum length', rec, contract=str(want),
                    code=str(rec.real.min_length))
    return None

def natively(v, more=()):
    if isinstance(v, dict):
        return all(natively(k, more) and natively(x, more) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return all(natively(x, more) for x in v)
    return v is None or isinstance(v, (bool, int, float, str) + more)

def equal_native(a, b):
    """equal as values of the schema: datetimes by instant, the rest by type and value"""
    if isinstance(a, dict):
        return isinstance(b, dict) and len(a) == len(b) and all(
            any(type(k) is type(j) and k == j and equal_native(x, b[j]) for j in b) for k, x in a.items())
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal_native(x, y) for x, y in zip(a, b))
    if isinstance(a, datetime):
        return isinstance(b, datetime) and a == b
    if isinstance(a, int) and not isinstance(a, bool):
        return isinstance(b, int) and not isinstance(b, bool) and a == b
    return same(a, b)

def fractional(v):
    """holds a value outside the property: fractions of a second, aware times"""
    if isinstance(v, dict):
        return any(fractional(k) or fractional(x) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return any(fractional(x) for x in v)
    if isinstance(v, datetime):
        return bool(v.microsecond) or bool(v.utcoffset() is not None and v.utcoffset().seconds % 60)
    if isinstance(v, time):
        return bool(v.microsecond) or v.tzinfo is not None
    return False

def c05(rng):
    g = Gen(rng, hooks=False, unions=False, aware_times=False)
    rec = g.schema(2, g.pick(list(SCALARS) * 2 + ['sequence', 'tuple', 'map', 'structure']))
    clean_roundtrip(rec)
    if not make(rec):
        return None
    for _ in range(6):
        v = g.value(rec, g.pick([1.0, 1.0, 0.9]))
        if g.p(0.3):
            v = equals_of(g, rec, v)
        if fractional(v):
            continue
        native = attempt(rec.real.process, v, 'outbound', False)
        if native[0] != 'ok':
            continue
        s = attempt(rec.real.process, v, 'outbound', True)
        if s[0] == 'raised' and isinstance(s[1], StructuralError) and (overflowed(s[1]) or edge(v, True)):
            continue
        if s[0] != 'ok':
            return failure('an accepted value cannot be serialized', rec, value=v, code=describe_real(s))
        if not natively(s[1], (bytes,)):
            return failure('the serialized value is not natively serializable', rec, value=v, code=describe_real(s))
        want = spec_process(rec, v, 'outbound', True)
        if want[0] == 'ok' and not same(want[1], s[1]):
            return failure('not the serialized form', rec, value=v, contract=describe_spec(want), code=describe_real(s))
        if collided(native[1], s[1]):
            continue
        back = attempt(rec.real.process, s[1], 'inbound', True)
        if back[0] != 'ok':
            if back[0] == 'raised' and isinstance(back[1], StructuralError) and (overflowed(back[1]) or edge(v, True)):
                continue
            return failure('the serialized value is refused', rec, value=v, serialized=s[1], code=describe_real(back))
        # absent members may have been given their default on the way in
        expected = spec_process(rec, native[1], 'inbound', False)
        if expected[0] != 'ok':
            continue
        if not equal_native(as_members(rec, expected[1]), back[1]):
            return failure('the value read back differs', rec, value=v, serialized=s[1],
                contract=brief(expected[1]), code=describe_real(back))
    return None

def as_members(rec, v):
    """v, with the values of enumerations replaced by the members they equal"""
    while rec.type == 'undefined' and rec.field is not None:
        rec = rec.field
    t = rec.type
    if v is None:
        return v
    if t == 'enumeration':
        if not isinstance(v, (int, float, str, type(None), dict, list, tuple)):
            for x in V.split(rec.enumeration):
                if x == v:
                    return x
    elif t == 'sequence':
        return [as_members(rec.item, x) for x in v]
    elif t == 'tuple':
        return tuple(as_members(c, x) for c, x in zip(rec.values, v))
    elif t == 'map':
        return dict((as_members(rec.key, k) if rec.key is not None else k, as_members(rec.value, x)) for k, x in v.items())
    elif t == 'structure':
        c = rec.structure
        if rec.polymorphic_on is not None:
            c = c[v[rec.polymorphic_on.name]]
        return dict((k, as_members(c[k], x)) for k, x in v.items())
    return v

def equals_of(g, rec, v):
    """v, with values of enumerations replaced by others that equal them"""
    t = rec.type
    if t == 'enumeration' and isinstance(v, (int, float)) and v == v and abs(v) < 1e9:
        return g.pick([decimal(v), float(v), v])
    if t == 'sequence' and isinstance(v, list):
        return [equals_of(g, rec.item, x) for x in v]
    if t == 'structure' and rec.polymorphic_on is None and isinstance(v, dict):
        return dict((k, equals_of(g, rec.structure[k], x) if k in rec.structure else x) for k, x in v.items())
    return v

def edge(v, key=False):
    """has a datetime at the end of the calendar in a key, which may overflow when it is converted"""
    if isinstance(v, dict):
        return any(edge(k) or edge(x, key) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return any(edge(x, key) for x in v)
    return not key and isinstance(v, datetime) and v.year in (1, 9999)

def overflowed(e):
    if any(x.get('token') == 'overflow' for x in e.errors):
        return True
    s = e.structure
    for x in (s.values() if isinstance(s, dict) else s or ()):
        if isinstance(x, StructuralError) and overflowed(x):
            return True
    return False

def collided(a, b):
    """two keys of a map were serialized alike"""
    if isinstance(a, dict):
        if len(a) != len(b):
            return True
        return any(collided(x, y) for x, y in zip(a.values(), b.values()))
    if isinstance(a, (list, tuple)):
        return any(collided(x, y) for x, y in zip(a, b))
    return False

def clean_roundtrip(rec):
    """leaves out the parameters the property does not speak about"""
    for k in ('constant', 'default', 'preprocessor'):
        rec.__dict__.pop(k, None)
    if rec.type == 'enumeration':
        rec.__dict__.pop('ignored_values', None)
    if rec.type == 'map' and rec.key is not None and rec.key.type not in ('text', 'token', 'integer', 'enumeration', 'boolean'):
        rec.__dict__.pop('required_keys', None)
    if rec.ignore_null:
        for k in ('required', 'nonempty'):
            rec.__dict__.pop(k, None)
    for c in kids(rec):
        clean_roundtrip_child(c)
    if rec.type == 'structure' and rec.polymorphic_on is not None and rec.disc is None:
        pass

def clean_roundtrip_child(c):
    loose = c.loose
    constant = c.constant
    clean_roundtrip(c)
    if loose and constant is not None:
        c.constant = constant

def c06(rng):
    return processing(rng, ['sequence', 'tuple'], 'outcome')

def c07(rng):
    return processing(rng, ['map'], 'outcome')

def plain_structure(g, depth):
    rec = g.schema(depth, 'structure')
    return rec

def c08(rng):
    for _ in range(5):
        g = Gen(rng, undefined=rng.random() < 0.2)
        rec = g.schema(2, 'structure')
        if rec.polymorphic_on is None:
            break
    else:
        return None
    return run_structure(g, rec)

def run_structure(g, rec):
    if not make(rec):
        return None
    order = rec.key_order.split(' ') if isinstance(rec.key_order, str) else rec.key_order
    for _ in range(8):
        v = pick_value(g, rec) if g.p(0.5) else g.value(rec, g.pick([1.0, 0.97, 0.9, 0.8]))
        phase, ser = g.pick(PHASES)
        if phase == 'inbound' and ser and g.p(0.85):
            v = g.serialized(rec, v)
        partial = g.pick([None, False, False, True])
        bad = run_process(rec, v, phase, ser, 'outcome', None, partial)
        if bad:
            return bad
        if order and rec.preprocessor is None:
            real = attempt(rec.real.process, v, phase, ser, None, bool(partial))
            if real[0] == 'ok' and isinstance(real[1], dict):
                got = [k for k in real[1] if k in order]
                if got != [k for k in order if k in real[1]] or list(real[1])[:len(got)] != got:
                    return failure('the keys are not in the declared order', rec, value=v, phase=phase,
                        serialized=ser, contract=order, code=list(real[1]))
    return None

def c09(rng):
    g = Gen(rng)
    rec = g.poly(g.common(Rec('structure')), 2)
    return run_structure(g, g.finish(rec))

def c10(rng):
    return processing(rng, ['union'], 'outcome')

def c11(rng):
    g = Gen(rng)
    rec = g.schema(3, g.pick(list(STRUCTURAL) * 3 + list(SCALARS)))
    if not make(rec):
        return None
    for _ in range(6):
        v = g.value(rec, g.pick([0.9, 0.8, 0.6]))
        phase, ser = g.pick(PHASES)
        if phase == 'inbound' and ser and g.p(0.8):
            v = g.serialized(rec, v)
        bad = run_process(rec, v, phase, ser, 'location', g.pick([None, None, ['top'], ['a', '.b', '[0]']]))
        if bad:
            return bad
        real = attempt(rec.real.process, v, phase, ser)
        if real[0] == 'raised' and isinstance(real[1], StructuralError):
            bad = report_mismatch(real[1])
            if bad:
                return failure(bad, rec, value=v, phase=phase, serialized=ser, code=describe_real(real))
    return None

def report(e):
    """the serialized report of an error"""
    s = None
    if e.structure:
        s = report_structure(e.structure)
    return (list(e.errors) if e.errors else None, s)

def report_structure(s):
    def one(x):
        if not isinstance(x, StructuralError):
            return None
        return report_structure(x.structure) if x.structure is not None else list(x.errors)
    if isinstance(s, list):
        return [one(x) for x in s]
    return dict((k, one(x)) for k, x in s.items() if isinstance(x, StructuralError))

def plain_report(r):
    if isinstance(r, dict):
        return all(plain_report(x) for x in r.values())
    if isinstance(r, (list, tuple)):
        return all(plain_report(x) for x in r)
    return r is None or isinstance(r, str)

def unindented(s):
    return '\n'.join(line.strip() for line in s.split('\n'))

def report_mismatch(e):
    if not leaves(e):
        # the only errors were those of map entries whose key another entry took over
        return None
    want = report(e)
    got = attempt(e.serialize)
    if got[0] != 'ok':
        return 'the error cannot be serialized'
    if not same(got[1], want):
        return 'the serialized error is not the report: %s instead of %s' % (brief(got[1], 1500), brief(want, 1500))
    if not plain_report(got[1]):
        return 'the serialized error is not natively serializable'
    again = attempt(type(e).unserialize, got[1])
    if again[0] != 'ok' or not same(again[1].serialize(), want):
        return 'the error read back reports something else'
    if not same(again[1].serialize(), want):
        return 'the error read back reports something else the second time'
    if bool(again[1].substantive) != bool(e.substantive):
        return 'the error read back is not substantive'
    text = attempt(str, e)
    if text[0] != 'ok':
        return 'the error cannot be printed: %s' % describe_real(text)
    want = leaves(e)
    for n, m in enumerate(want):
        if ' at ' not in text[1] or unindented(m) not in unindented(text[1]):
            return 'the printed error lacks the message %r' % m
    if ('[%02d] ' % len(want)) not in text[1] or ('\n[%02d] ' % (len(want) + 1)) in text[1]:
        return 'the printed error does not list every message once'
    return None

def leaves(e):
    if e.structure is not None:
        s = e.structure
        own = [x['message'] for x in e.errors]
        return own + [m for x in (s.values() if isinstance(s, dict) else s)
                      if isinstance(x, StructuralError) for m in leaves(x)]
    return [x['message'] for x in e.errors]

def c12(rng):
    """records every conversion, hook and validation step through instrumented subclasses of hooks"""
    g = Gen(rng, hooks=False)
    rec = g.schema(2, g.pick(list(SCALARS) * 2 + ['sequence', 'tuple', 'map', 'structure', 'union']))
    log = []
    instrument(g, rec, log)
    if not make(rec):
        return None
    for _ in range(5):
        v = pick_value(g, rec)
        phase, ser = g.pick(PHASES)
        if phase == 'inbound' and ser and g.p(0.85):
            v = g.serialized(rec, v)
        del log[:]
        spec = spec_process(rec, v, phase, ser)
        want = list(log)
        del log[:]
        real = attempt(rec.real.process, v, phase, ser)
        got = list(log)
        if spec is None:
            continue
        m = process_mismatch(real, spec, 'outcome')
        if not m and not same_calls(want, got):
            m = 'the hooks were not called as specified: %s instead of %s' % (brief(got), brief(want))
        if m:
            return failure(m, rec, value=v, phase=phase, serialized=ser, contract=describe_spec(spec),
                code=describe_real(real))
    return None

def same_calls(a, b):
    if len(a) != len(b):
        return False
    # sibling members may be visited in any order: compare hook by hook
    a, b = sorted(a, key=lambda x: x[0]), sorted(b, key=lambda x: x[0])
    return all(x[0] == y[0] and (x[1] is y[1] or same(x[1], y[1])) for x, y in zip(a, b))

def instrument(g, rec, log):
    if rec.type != 'undefined' and not rec.loose and g.p(0.6):
        inner = g.pick(HOOKS + [None] * 8)
        key = len(log)
        name = 'hook%d' % g.rng.randrange(10 ** 6)
        def hook(v, inner=inner, name=name):
            log.append((name, v))
            return inner(v) if inner else v
        hook.__name__ = 'logged_%s' % (inner.__name__ if inner else 'identity')
        rec.preprocessor = hook
    for c in kids(rec):
        instrument(g, c, log)
