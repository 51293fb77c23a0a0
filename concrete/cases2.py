"""Generated cases of the properties C13-C21, C26, C27 (see cases.py)."""
import copy
import json
import os
import shutil
import tempfile
from datetime import date, datetime, time
from decimal import Decimal as decimal

import scheme
from scheme import fields as F
from scheme.element import Element
from scheme.exceptions import *
from scheme.field import Field, FieldError, Undefined
from scheme.format import Format
from scheme.util import recursive_merge, set_nested_value, traverse_to_key
from concrete.records import (CLASSES, COMMON, OWN, Rec, SCALARS, STRUCTURAL, arguments, build, kids,
    polymorphic, show)
from concrete.compare import attempt, brief, describe_real, process_mismatch, same
from concrete.gen import Gen, HOOKS, NAMES, Thing, hashable
from concrete.cases import (PHASES, EVERY, failure, make, natively, pick_value, spec_process,
    clean_roundtrip, equal_native, fractional)
from contracts import convey as Y, process as P, values as V

# ---------------------------------------------------------------- fingerprints
def freeze(x, seen=None, ids=True, skip=()):
    """everything observable about an object, at any depth"""
    seen = {} if seen is None else seen
    if x is None or isinstance(x, (bool, int, float, str, bytes, type)):
        return (type(x).__name__, repr(x))
    if id(x) in seen:
        return ('seen', seen[id(x)])
    if not ids:
        seen = dict(seen)
    seen[id(x)] = len(seen)
    tag = id(x) if ids else None
    if isinstance(x, dict):
        return (type(x).__name__, tag, tuple((freeze(k, seen, ids, skip), freeze(v, seen, ids, skip)) for k, v in list(x.items()) if not (isinstance(k, str) and k in skip)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tag, tuple(freeze(v, seen, ids, skip) for v in x))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, tag, tuple(sorted(repr(v) for v in x)))
    if isinstance(x, (Field, Undefined, Thing, FieldError)) or hasattr(x, '__dict__') and type(x).__module__.startswith('concrete'):
        return (type(x).__name__, tag, tuple((k, freeze(v, seen, ids, skip)) for k, v in sorted(x.__dict__.items())
            if not k.startswith('_') and k not in skip))
    return (type(x).__name__, repr(x) if not callable(x) else id(x))

def convey_outcome(fn, *args, **kw):
    r = attempt(fn, *args, **kw)
    if r[0] != 'raised':
        return r
    e = r[1]
    for kind, name in ((FieldExcludedError, 'excluded'), (CannotExtractError, 'cannot'),
            (CannotInterpolateError, 'cannot'), (UndefinedFieldError, 'undefined'),
            (UndefinedParameterError, 'undefparam')):
        if isinstance(e, kind):
            return (name,)
    return ('other', e)

def autoname(rec):
    """structure members without a name take their key"""
    if rec.type == 'structure':
        for s in (rec.structure.values() if rec.polymorphic_on is not None else [rec.structure]):
            for k, c in s.items():
                while c.type == 'undefined' and c.field is not None:
                    c = c.field
                if not c.name:
                    c.name = k
    for c in kids(rec):
        autoname(c)
    return rec

# ---------------------------------------------------------------- hooks of extraction
def ext_same(field, subject):
    return subject
def ext_raise(field, subject):
    raise AttributeError('extractor')
def ext_attrs(field, subject):
    return dict(subject.__dict__)
def ext_list(field, subject):
    return list(subject)
def ext_first(field, subject):
    return subject[0]
def ext_none(field, subject):
    return None
EXTRACTORS = [ext_same, ext_raise, ext_attrs, ext_list, ext_first, ext_none]

class Made(object):
    """what the logged instantiators return"""
    def __init__(self, tag, value, key):
        self.tag, self.value, self.key = tag, value, key
    def __eq__(self, other):
        return isinstance(other, Made) and same((self.tag, self.value, self.key), (other.tag, other.value, other.key))
    def __ne__(self, other):
        return not self == other
    def __hash__(self):
        return hash(self.tag)
    def __repr__(self):
        return 'Made(%r, %r, %r)' % (self.tag, self.value, self.key)

def instantiators(g, rec, log, chance=0.5):
    """an instantiator that logs its call on some of the fields"""
    if rec.type != 'undefined' and not rec.loose and g.p(chance):
        tag = 'make%d' % g.rng.randrange(10 ** 6)
        def instantiate(field, value, key=None):
            log.append((tag, field, value, key))
            return Made(tag, value, key)
        rec.instantiator = instantiate
    for c in kids(rec):
        instantiators(g, c, log, chance)

def decorate(g, rec, chance, **choices):
    for c in kids(rec):
        decorate(g, c, chance, **choices)
    if rec.type != 'undefined' and not rec.loose:
        for k, options in choices.items():
            if g.p(chance):
                setattr(rec, k, g.pick(options))
    return rec

PARAMS = {'v0': 1, 'v1': 'text', 'v2': [1, '2', None], 'v3': {'a': 1, 'b': 'x'}, 'v4': None, 'v5': 2.5,
    'v6': True, 'v7': '12', 'v8': {'q': {'r': 7}}, 'v9': date(2000, 1, 2), 'v10': '1.50', 'v11': [],
    'v12': {}, 'v13': decimal('2.5'), 'v14': 'a:b', 'v15': '', 'v16': 0, 'v17': False, 'v18': 'a'}
REFS = ['${%s}' % k for k in PARAMS] + ['${v8.q.r}', '${v3.b}', ' ${v1} ', '${ v0 }', '${nope}', '${v3.zz}',
    '${v8.q}', '${ v2}']
TEMPLATES = ['a ${v1} b', '${v0}${v1}', 'x${nope}y', '${v0}-', ' ${v7}', 'plain', '', '${', 'a}', '$v0', 'v0',
    '12', ' 3', '${v0} ${v5}', '{v0}', '$ {v0}', '${}']

def subject(g, rec, depth=0):
    """an interpolation subject for the schema: parts replaced by references"""
    r = g.rng.randrange(12)
    if r < 4:
        return g.pick(REFS)
    if r < 5:
        return g.pick(TEMPLATES[:-6] if rec.type in ('text', 'token') else TEMPLATES)
    if r < 6:
        return g.pick([None, 1, [], {}, (), 'a', ['${v0}'], {'a': '${v1}'}])
    t = rec.type
    if t == 'undefined':
        return subject(g, rec.field, depth) if rec.field is not None else None
    if t == 'sequence':
        out = [subject(g, rec.item) for _ in range(g.rng.randint(0, 3))]
        return out if g.p(0.8) else tuple(out)
    if t == 'tuple':
        out = [subject(g, c) for c in rec.values]
        if g.p(0.15):
            out = out[1:] if g.p(0.5) else out + [1]
        return out if g.p(0.5) else tuple(out)
    if t == 'map':
        return dict((k, subject(g, rec.value)) for k in g.rng.sample(NAMES, g.rng.randint(0, 3)))
    if t == 'union':
        return subject(g, g.pick(list(rec.fields)))
    if t == 'structure':
        s, out = rec.structure, {}
        if rec.polymorphic_on is not None:
            i = g.pick(list(s))
            s = s[i]
            if g.p(0.93):
                out[rec.polymorphic_on.name] = i if g.p(0.93) else g.pick(['nope', None, [1]])
        for k, c in s.items():
            if k not in out and g.p(0.8) and not c.loose:
                out[k] = subject(g, c)
        if g.p(0.15):
            out['undeclared'] = '${v0}'
        return out
    return g.value(rec, 0.95)

def extractable(g, rec, v, loose):
    """an extraction subject: dicts of structures become objects now and then"""
    t = rec.type
    if t == 'undefined':
        return extractable(g, rec.field, v, loose) if rec.field is not None else v
    if t == 'sequence' and isinstance(v, list):
        v = [extractable(g, rec.item, x, loose) for x in v]
        return v if g.p(0.7) else tuple(v)
    if t == 'tuple' and isinstance(v, (list, tuple)):
        v = [extractable(g, c, x, loose) for c, x in zip(rec.values, v)]
        if g.p(0.1):
            v = v[1:] if g.p(0.5) else v + [3]
        return v if g.p(0.5) else tuple(v)
    if t == 'map' and isinstance(v, dict):
        return dict((k, extractable(g, rec.value, x, loose)) for k, x in v.items())
    if t == 'union':
        return extractable(g, g.pick(list(rec.fields)), v, loose)
    if t == 'structure' and isinstance(v, dict):
        s = rec.structure
        if rec.polymorphic_on is not None:
            i = v.get(rec.polymorphic_on.name)
            s = s.get(i, {}) if hashable(i) else {}
        v = dict((k, extractable(g, s[k], x, loose) if k in s else x) for k, x in v.items())
        if g.p(0.2):
            v[g.pick(NAMES)] = None
        if g.p(loose) and all(isinstance(k, str) for k in v):
            return Thing(**v)
    return v

def screening(g, rec):
    """screening parameters, biased towards what the fields carry"""
    if g.p(0.5):
        return {}
    names = ['required', 'nonnull', 'ignore_null', 'name', 'title', 'alpha', 'beta', 'missing']
    out = {}
    for k in g.rng.sample(names, g.rng.randint(1, 2)):
        out[k] = g.pick([None, Y.attribute(rec, k), Y.attribute(rec, k), True, False, 1, 'x', 'a'])
    return out

# ---------------------------------------------------------------- C13
def containers(rec, v, out):
    """the containers in a value that structural fields of the schema stand for"""
    t = rec.type
    if t == 'undefined':
        if rec.field is not None:
            containers(rec.field, v, out)
    elif t == 'sequence' and isinstance(v, (list, tuple)):
        out.append(v)
        for x in v:
            containers(rec.item, x, out)
    elif t == 'tuple' and isinstance(v, (list, tuple)):
        out.append(v)
        for c, x in zip(rec.values, v):
            containers(c, x, out)
    elif t == 'map' and isinstance(v, dict):
        out.append(v)
        for x in v.values():
            containers(rec.value, x, out)
    elif t == 'structure' and isinstance(v, dict):
        out.append(v)
        s = rec.structure
        if rec.polymorphic_on is not None:
            i = v.get(rec.polymorphic_on.name)
            s = s.get(i, {}) if hashable(i) else {}
        for k, x in v.items():
            if k in s:
                containers(s[k], x, out)
    return out

def reachable(v, out):
    if isinstance(v, (list, dict)):
        out[id(v)] = v
        for x in (v.values() if isinstance(v, dict) else v):
            reachable(x, out)
    elif isinstance(v, tuple):
        for x in v:
            reachable(x, out)
    return out

def defaults(rec, out):
    reachable(rec.default, out)
    for c in kids(rec):
        defaults(c, out)
    return out

def summary(r):
    """an outcome in comparable form"""
    if r[0] == 'raised':
        e = r[1]
        if isinstance(e, StructuralError):
            return ('raised', type(e).__name__, list(e.identity), e.serialize(True))
        return ('raised', type(e).__name__, str(e))
    return r

def equal_outcomes(a, b):
    return a[0] == b[0] and (a[0] != 'ok' and a == b or a[0] == 'ok' and same(a[1], b[1]) or
        a[0] == 'raised' and same(a, b))

def c13(rng):
    g = Gen(rng, hooks=False, aspects=True)
    rec = g.schema(2, g.pick(EVERY))
    decorate(g, rec, 0.08, extractor=EXTRACTORS[:1] + EXTRACTORS[3:])
    decorate(g, rec, 0.08, preprocessor=[HOOKS[0]])
    if not make(rec):
        return None
    f = rec.real
    v = g.pick([g.value(rec), g.value(rec, 0.9), g.value(rec, 0.7), g.serialized(rec, g.value(rec)), g.any(2)])
    params = dict((k, copy.deepcopy(x)) for k, x in PARAMS.items())
    screens = screening(g, rec)
    loose = extractable(g, rec, g.value(rec, 0.95), 0.4)
    sub = subject(g, rec)
    extra = {'notes': None, 'alpha': 1}
    ops = [('process %s %s' % p, v, lambda p=p: f.process(v, p[0], p[1])) for p in PHASES]
    ops += [('serialize', v, lambda: f.serialize(v)), ('unserialize', v, lambda: f.unserialize(v)),
        ('serialize json', v, lambda: f.serialize(v, 'json')),
        ('extract', loose, lambda: f.extract(loose, False, **screens)),
        ('extract strictly', v, lambda: f.extract(v, True, **screens)),
        ('interpolate', sub, lambda: f.interpolate(sub, params)),
        ('screen', screens, lambda: f.screen(**screens)),
        ('describe', extra, lambda: f.describe(extra)),
        ('describe verbosely', extra, lambda: f.describe(None, True))]
    if rec.type == 'structure':
        ops.append(('process partially', v, lambda: f.process(v, 'inbound', False, None, True)))
    valid = attempt(f.process, v)
    if valid[0] == 'ok' and not has_type(rec, 'union'):
        ops.append(('instantiate', valid[1], lambda: f.instantiate(valid[1])))
    g.rng.shuffle(ops)
    for name, arg, op in ops:
        before = (freeze(v), freeze(f), freeze(params), freeze(loose), freeze(sub), freeze(screens),
            freeze(extra), freeze(arg))
        got = attempt(op)
        after = (freeze(v), freeze(f), freeze(params), freeze(loose), freeze(sub), freeze(screens),
            freeze(extra), freeze(arg))
        if before != after:
            i = [n for n in range(8) if before[n] != after[n]][0]
            return failure('%s modifies %s' % (name, ('the value', 'the field', 'the parameters', 'the subject',
                'the subject', 'the screening parameters', 'the parameters', 'the value')[i]), rec, value=arg,
                before=brief(before[i], 1500), after=brief(after[i], 1500))
        if got[0] == 'recursion':
            continue
        if got[0] == 'ok' and (name.startswith('process') or name in ('extract', 'extract strictly', 'interpolate',
                'serialize', 'unserialize', 'instantiate')):
            known = defaults(rec, {})
            for x in containers(rec, arg, []):
                known[id(x)] = x
            if name == 'interpolate':
                known.update(reachable(params, {}))
            for x in containers(rec, got[1], []):
                if id(x) in known and isinstance(x, (list, dict)) and not has_extractor(rec):
                    return failure('%s returns a container of the input' % name, rec, value=arg, code=describe_real(got))
        again = attempt(op)
        a, b = summary(got), summary(again)
        if not equal_outcomes(a, b):
            return failure('%s gives another outcome when repeated' % name, rec, value=arg,
                first=describe_real(got), second=describe_real(again))
    return None

def has_type(rec, t):
    return rec.type == t or any(has_type(c, t) for c in kids(rec))

def has_extractor(rec):
    return rec.extractor is not None or any(has_extractor(c) for c in kids(rec))

# ---------------------------------------------------------------- C14
def c14(rng):
    g = Gen(rng, hooks=False, aspects=True)
    rec = g.schema(2, g.pick(list(STRUCTURAL) * 3 + list(SCALARS)))
    decorate(g, rec, 0.12, extractor=EXTRACTORS)
    if not make(rec):
        return None
    autoname(rec)
    for _ in range(8):
        v = g.value(rec, g.pick([1.0, 0.95, 0.8])) if g.p(0.9) else g.any(2)
        strict = g.p(0.5)
        v = extractable(g, rec, v, 0.1 if strict else 0.6)
        params = screening(g, rec)
        try:
            spec = Y.extract(rec, v, strict, params)
        except RecursionError:
            continue
        got = convey_outcome(rec.real.extract, v, strict, **params)
        bad = convey_mismatch(got, spec)
        if bad:
            return failure(bad, rec, value=v, strict=strict, screening=params, contract=spec, code=got)
        if screen_mismatch(rec, params):
            return failure('screening', rec, screening=params)
    return None

def screen_mismatch(rec, params):
    got = attempt(rec.real.screen, **params)
    return got[0] != 'ok' or bool(got[1]) != Y.screen(rec, params)

def convey_mismatch(got, spec):
    if spec[0] == 'other' or got[0] == 'recursion':
        return None
    if got[0] != spec[0]:
        return 'the wrong outcome'
    if got[0] == 'ok' and not same(got[1], spec[1]):
        return 'the wrong value'
    return None

# ---------------------------------------------------------------- C15
def c15(rng):
    if rng.random() < 0.4:
        return element_case(rng)
    g = Gen(rng, hooks=False, unions=False)
    rec = g.schema(2, g.pick(['sequence', 'tuple', 'map', 'structure'] * 3 + list(SCALARS)))
    log = []
    instantiators(g, rec, log)
    if not make(rec):
        return None
    for _ in range(8):
        v = attempt(rec.real.process, g.value(rec, 0.97))
        if v[0] != 'ok':
            continue
        v = v[1]
        key = g.pick([None, 'k', 3])
        del log[:]
        spec = Y.instantiate(rec, v, key)
        want = list(log)
        del log[:]
        got = convey_outcome(rec.real.instantiate, v, key) if key is not None else convey_outcome(rec.real.instantiate, v)
        bad = convey_mismatch(got, spec)
        if not bad and not equal_calls(want, log):
            bad = 'the instantiators were not called as specified'
        if bad:
            return failure(bad, rec, value=v, key=key, contract=spec, code=got, calls=log, expected=want)
    return None

def equal_calls(a, b):
    """the same calls with the same field, value and key; parts before the whole"""
    if len(a) != len(b):
        return False
    rest = list(b)
    for x in a:
        for i, y in enumerate(rest):
            if x[0] == y[0] and (x[1] is y[1] or x[1] is None) and same(x[2], y[2]) and same(x[3], y[3]):
                del rest[i]
                break
        else:
            return False
    return True

def element_case(rng):
    g = Gen(rng, hooks=False, unions=False, names=False, aware_times=False, constants=False)
    nested = None
    if g.p(0.5):
        rec = g.poly(Rec('structure'), 1)
        if any(not isinstance(i, str) for i in rec.structure):
            return None
        own = rec.base
    else:
        ks = [k for k in NAMES if k not in ('id', 'name', 'title')]
        rec = Rec('structure', structure=dict((k, g.schema(1)) for k in g.rng.sample(ks, g.rng.randint(1, 4))))
        if g.p(0.4):
            nested = Rec('structure', structure=dict((k, g.scalar()) for k in g.rng.sample(ks, 2)))
            rec.structure['part'] = nested if g.p(0.5) else Rec('sequence', item=nested)
    clean_roundtrip(rec)
    for s in (rec.structure.values() if rec.polymorphic_on is not None else [rec.structure]):
        for c in s.values():
            if not c.loose:
                for k in ('required', 'nonempty', 'nonnull', 'ignore_null'):
                    c.__dict__.pop(k, None)
            if g.p(0.4) and c.type in ('integer', 'text', 'boolean') and not c.loose and c.minimum is None \
                    and c.maximum is None and c.min_length is None and c.max_length is None and c.pattern is None:
                c.default = {'integer': 7, 'text': 'deflt', 'boolean': True}[c.type]
    if not make(rec):
        return None
    meta = type(Element)
    part = meta('Part', (Element,), {'schema': nested.real}) if nested is not None else None
    space = {'schema': rec.real}
    if g.p(0.3):
        space['key_attr'] = 'the_key'
    cls = meta('Doc', (Element,), space)
    impls = {}
    if rec.polymorphic_on is not None:
        for i in rec.structure:
            if g.p(0.6):
                impls[i] = meta('Doc_%s' % i, (cls,), {'polymorphic_identity': i})
    for _ in range(4):
        v = g.value(rec)
        if v is None or fractional(v):
            continue
        ok = attempt(rec.real.process, v, 'outbound', False)
        if ok[0] != 'ok':
            continue
        v = ok[1]
        definition, want = rec.structure, cls
        if rec.polymorphic_on is not None:
            definition = rec.structure[v[rec.polymorphic_on.name]]
            want = impls.get(v[rec.polymorphic_on.name], cls)
        got = attempt(cls.instantiate, rec.real, v, 'kk') if 'key_attr' in space else attempt(rec.real.instantiate, v)
        if got[0] != 'ok' or type(got[1]) is not want:
            return failure('not an instance of the element', rec, value=v, code=describe_real(got))
        inst = got[1]
        if 'key_attr' in space and inst.the_key != 'kk':
            return failure('the key was not stored', rec, value=v)
        if 'key_attr' in space:
            del inst.the_key
            inst = rec.real.instantiate(v)
        for k, c in definition.items():
            if k in v:
                expected = v[k]
            else:
                expected = c.default if c.default is not None else c.constant
            a = attempt(getattr, inst, k)
            if a[0] != 'ok':
                return failure('an attribute is missing', rec, value=v, attribute=k)
            if not same_part(a[1], expected, part):
                return failure('the wrong attribute', rec, value=v, attribute=k, contract=expected, code=a[1])
        values = dict((k, getattr(inst, k)) for k in definition)
        s = attempt(inst.serialize)
        if s[0] != 'ok':
            if s[0] == 'raised' and isinstance(s[1], StructuralError):
                continue
            return failure('an element cannot be serialized', rec, value=v, code=describe_real(s))
        whole = attempt(rec.real.serialize, dict((k, plain(x)) for k, x in values.items() if x is not None))
        if whole[0] == 'ok' and not same(drop_none(whole[1]), drop_none(s[1])):
            return failure('not the serialized attributes', rec, value=v, contract=whole[1], code=s[1])
        back = attempt(cls.unserialize, s[1])
        if back[0] != 'ok':
            return failure('the serialized element is refused', rec, value=v, serialized=s[1], code=describe_real(back))
        if type(back[1]) is not want:
            return failure('restored with another class', rec, value=v, code=describe_real(back))
        for k, x in values.items():
            if x is not None:
                y = getattr(back[1], k)
                if not equal_native(drop_none(plain(x)), drop_none(plain(y))):
                    return failure('an attribute was not restored', rec, value=v, attribute=k, contract=plain(x), code=plain(y))
    return None

def plain(x):
    if isinstance(x, Element):
        return dict((k, plain(y)) for k, y in x.__dict__.items())
    if isinstance(x, dict):
        return dict((k, plain(y)) for k, y in x.items())
    if isinstance(x, (list, tuple)):
        return type(x)(plain(y) for y in x)
    return x

def drop_none(x):
    if isinstance(x, dict):
        return dict((k, drop_none(y)) for k, y in x.items() if y is not None)
    if isinstance(x, (list, tuple)):
        return type(x)(drop_none(y) for y in x)
    return x

def same_part(a, b, part):
    if isinstance(a, Element):
        return type(a) is part and isinstance(b, dict) and all(
            same(getattr(a, k), x) for k, x in b.items())
    if isinstance(a, list) and isinstance(b, list) and any(isinstance(x, Element) for x in a):
        return len(a) == len(b) and all(same_part(x, y, part) for x, y in zip(a, b))
    return same(a, b)

# ---------------------------------------------------------------- C16
def c16(rng):
    g = Gen(rng, hooks=False, constants=False)
    rec = g.schema(2, g.pick(list(STRUCTURAL) * 2 + list(SCALARS)))
    if not make(rec):
        return None
    params = dict((k, copy.deepcopy(x)) for k, x in PARAMS.items())
    for _ in range(6):
        v = subject(g, rec)
        try:
            spec = Y.interpolate(rec, v, params)
        except RecursionError:
            continue
        except ValueError:
            continue
        got = convey_outcome(rec.real.interpolate, v, params)
        bad = convey_mismatch(got, spec)
        if bad:
            return failure(bad, rec, value=v, contract=spec, code=got)
    return None

# ---------------------------------------------------------------- C17
def native_schema(g, rec):
    """keeps the parameters a description can hold"""
    for k in ('default', 'constant'):
        x = rec.__dict__.get(k)
        if not natively(x):
            if not (k == 'constant' and rec.loose):
                rec.__dict__.pop(k, None)
    if rec.type == 'structure' and rec.polymorphic_on is None and rec.structure and rec.default is None and \
            rec.constant is None and rec.key_order is None and g.p(0.1):
        # a member may have the name of the key that tells the type of a description
        n = g.pick(sorted(rec.structure))
        c = rec.structure.pop(n)
        if c.name is None:
            rec.structure['fieldtype'] = c
        else:
            rec.structure[n] = c
    if rec.type == 'structure' and rec.polymorphic_on is not None and not natively(list(rec.structure)):
        rec.__dict__.clear()
        rec.__dict__['type'] = 'boolean'
    if rec.required_keys is not None and not isinstance(rec.required_keys, str) and not all(
            isinstance(x, (str, int, float)) for x in rec.required_keys):
        del rec.required_keys
    for k in ('minimum', 'maximum'):
        x = rec.__dict__.get(k)
        if isinstance(x, float) and x != x:
            rec.__dict__.pop(k)
    for c in kids(rec):
        native_schema(g, c)
    if rec.default is not None and rec.type in STRUCTURAL:
        # a default has to be a valid value of its field, that serializing leaves as it is
        x = spec_process(rec, rec.default, 'outbound', True)
        if x is None or x[0] != 'ok' or not same(x[1], rec.default):
            del rec.default
    return rec

def c17(rng):
    g = Gen(rng, hooks=False, aware_times=False, aspects=True)
    g.fractions = False
    rec = native_schema(g, g.schema(2, g.pick(EVERY)))
    if not make(rec):
        return None
    return described(g, rec)

def described(g, rec):
    f = rec.real
    verbose = g.p(0.25)
    before = freeze(f)
    d = attempt(f.describe, None, verbose)
    if d[0] != 'ok':
        return failure('the field cannot be described', rec, code=describe_real(d))
    d = d[1]
    if not natively(d):
        return failure('the description is not natively serializable', rec, code=d)
    kept = freeze(d)
    again = attempt(Field.reconstruct, d)
    if again[0] != 'ok':
        return failure('the field cannot be rebuilt', rec, description=d, code=describe_real(again))
    h = again[1]
    if freeze(d) != kept:
        return failure('reconstructing changes the description', rec, description=d)
    if freeze(f) != before:
        return failure('describing changes the field', rec)
    if type(h) is not type(f):
        return failure('the rebuilt field has another type', rec, code=h)
    d2 = attempt(h.describe, None, verbose)
    if d2[0] != 'ok' or not same_description(d2[1], d):
        return failure('the rebuilt field is described differently', rec, description=d, code=describe_real(d2))
    return behaves(g, rec, f, h, 'the rebuilt field')

def same_description(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same_description(x, b[k]) for k, x in a.items())
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(same_description, a, b))
    return same(a, b)

def behaves(g, rec, f, h, what, n=6, **opts):
    for _ in range(n):
        v = pick_value(g, rec)
        phase, ser = g.pick(PHASES)
        if phase == 'inbound' and ser and g.p(0.8):
            v = g.serialized(rec, v)
        a, b = attempt(f.process, v, phase, ser), attempt(h.process, v, phase, ser)
        if 'recursion' in (a[0], b[0]):
            continue
        if not equal_outcomes(summary(a), summary(b)):
            return failure('%s behaves differently' % what, rec, value=v, phase=phase, serialized=ser,
                contract=describe_real(a), code=describe_real(b))
    return None

# ---------------------------------------------------------------- C18
SKIP = ('representation',)

def config(f):
    """the configuration of a field, at any depth"""
    return freeze(f, None, False, SKIP)

def owned(f, out):
    """the mutable parts of a field: fields and their containers (not defaults)"""
    if id(f) in out:
        return out
    if isinstance(f, (Field, Undefined)):
        out[id(f)] = f
        for k, x in f.__dict__.items():
            if k not in ('default', 'constant', 'callbacks', 'preprocessor', 'instantiator', 'extractor') and not (
                    k == 'errors' and x is type(f).errors):
                owned(x, out)
    elif isinstance(f, dict):
        out[id(f)] = f
        for x in f.values():
            owned(x, out)
    elif isinstance(f, (list, tuple)):
        if isinstance(f, list):
            out[id(f)] = f
        for x in f:
            owned(x, out)
    return out

def instantiate_hook(field, value, key=None):
    return value

def mutate(g, f, deep=True):
    """changes a field in place, somewhere"""
    todo = [x for x in owned(f, {}).values()]
    g.rng.shuffle(todo)
    for x in todo[:4]:
        if isinstance(x, Field):
            x.name = 'changed'
            x.nonnull = not x.nonnull
            x.aspects['changed'] = 1
        elif isinstance(x, dict):
            if g.p(0.5) and x:
                x.pop(g.pick(list(x)))
            else:
                x['changed'] = F.Boolean(name='changed')
        elif isinstance(x, list):
            x.append('changed')

def strip_refs(x):
    """leaves out the id-less noise of freeze: aspects added by clone for enumerations"""
    return x

def c18(rng):
    g = Gen(rng, hooks=True, aspects=True)
    if rng.random() < 0.45:
        return edits(g)
    rec = g.schema(2, g.pick(EVERY))
    decorate(g, rec, 0.06, instantiator=[instantiate_hook], extractor=[ext_same])
    if g.p(0.3):
        rec.errors = [FieldError('invalid', 'own', 'own message')]
        if g.p(0.5):
            rec.errors = {'invalid': rec.errors[0]}
    if not make(rec):
        return None
    if has_type(rec, 'enumeration'):
        for r in all_records(rec, []):
            # may hold a list that is also a value of the enumeration
            r.__dict__.pop('default', None)
            r.__dict__.pop('constant', None) if not r.loose else None
        if not make(rec):
            return None
    f = rec.real
    before = config(f)
    whole = freeze(f)
    c = attempt(f.clone) if g.p(0.7) else attempt(copy.deepcopy, f)
    if c[0] != 'ok':
        return failure('the field cannot be cloned', rec, code=describe_real(c))
    c = c[1]
    if freeze(f) != whole:
        return failure('cloning changes the field', rec)
    if type(c) is not type(f):
        return failure('the clone has another type', rec)
    if config(c) != before:
        return failure('the clone is configured differently', rec, contract=brief(before, 1500), code=brief(config(c), 1500))
    shared = set(owned(f, {})) & set(owned(c, {}))
    if shared:
        return failure('the clone shares parts with the original', rec, code=[owned(f, {})[i] for i in shared][:3])
    bad = behaves(g, rec, f, c, 'the clone', 3)
    if bad:
        return bad
    over = {}
    for k, options in (('name', ['other', None]), ('required', [True, False]), ('nonnull', [True, False]),
            ('title', ['T', None]), ('ignore_null', [True, False]), ('description', ['D']), ('default', [None])):
        if g.p(0.3):
            over[k] = g.pick(options)
    o = attempt(f.clone, **over)
    if o[0] != 'ok':
        return failure('the field cannot be cloned', rec, overrides=over, code=describe_real(o))
    for k, x in over.items():
        if getattr(o[1], k) != x:
            return failure('an override was not applied', rec, overrides=over)
        setattr(o[1], k, getattr(f, k))
    if config(o[1]) != before and set(o[1].__dict__) == set(f.__dict__):
        return failure('a clone with overrides is configured differently otherwise', rec, overrides=over)
    first, second = (f, c) if g.p(0.5) else (c, f)
    kept = freeze(second)
    mutate(g, first)
    if freeze(second) != kept:
        return failure('a change to one affects the other', rec)
    return None

def edits(g):
    rec = g.schema(2, 'structure')
    if rec.polymorphic_on is not None or not make(rec):
        return None
    f = rec.real
    def members(g):
        out = {}
        for k in g.rng.sample(NAMES, g.rng.randint(0, 3)):
            out[k] = CLASSES[g.pick(['integer', 'text', 'boolean'])](name=g.pick([None, k, 'else']), title='new')
        return out
    for _ in range(3):
        old = dict(f.structure)
        frozen = dict((k, freeze(x)) for k, x in old.items())
        new = members(g)
        op = g.pick(['extend', 'replace', 'insert', 'merge', 'remove'])
        detail = {'op': op, 'new': sorted(new), 'old': sorted(old)}
        if op in ('extend', 'replace'):
            before = freeze(f)
            expect = dict(old)
            for k, x in new.items():
                if op == 'extend' or k in old:
                    expect[k] = x
            r = attempt(getattr(f, op), new)
            if r[0] != 'ok':
                return failure('%s failed' % op, rec, code=describe_real(r), **detail)
            if freeze(f) != before:
                return failure('%s changes the original' % op, rec, **detail)
            h = r[1]
            if op == 'replace' and not any(k in old for k in new):
                if h is not f:
                    return failure('a replacement that matches nothing makes a copy', rec, **detail)
                continue
            if h is f:
                return failure('%s returns the original' % op, rec, **detail)
            if set(h.structure) != set(expect):
                return failure('%s gives the wrong members' % op, rec, code=sorted(h.structure), **detail)
            for k, x in h.structure.items():
                if k in new:
                    if x is not new[k] or x.name != k:
                        return failure('%s does not use the given field' % op, rec, member=k, **detail)
                elif config(x) != config(old[k]) or x is old[k]:
                    return failure('%s changes an unnamed member' % op, rec, member=k, **detail)
            rest = lambda z: dict((k, x) for k, x in z.__dict__.items() if k not in ('structure',))
            if freeze(rest(h), None, False, SKIP) != freeze(rest(f), None, False, SKIP):
                return failure('%s changes the configuration' % op, rec, **detail)
            continue
        expect = dict(old)
        if op == 'insert':
            if not new:
                continue
            k, x = list(new.items())[0]
            x.name = k
            over = g.p(0.5)
            if over or k not in old:
                expect[k] = x
            detail['overwrite'] = over
            r = attempt(f.insert, x, over) if over or g.p(0.5) else attempt(f.insert, x)
        elif op == 'merge':
            prefer = g.p(0.5)
            detail['prefer'] = prefer
            for k, x in new.items():
                if prefer or k not in old:
                    expect[k] = x
            r = attempt(f.merge, new, prefer) if prefer or g.p(0.5) else attempt(f.merge, new)
        else:
            names = g.rng.sample(NAMES, g.rng.randint(0, 3))
            detail['names'] = names
            for k in names:
                expect.pop(k, None)
            r = attempt(f.remove, *names)
        if r[0] != 'ok':
            return failure('%s failed' % op, rec, code=describe_real(r), **detail)
        if set(f.structure) != set(expect):
            return failure('%s gives the wrong members' % op, rec, code=sorted(f.structure), **detail)
        for k, x in expect.items():
            y = f.structure[k]
            if k in old and x is old[k]:
                if y is not x or freeze(y) != frozen[k]:
                    return failure('%s changes an unnamed member' % op, rec, member=k, **detail)
            elif y.name != k or (y is not x and config(y.clone(name=x.name)) != config(x)):
                return failure('%s does not use the given field' % op, rec, member=k, **detail)
    return None

# ---------------------------------------------------------------- C19
def passes(f, all_, params):
    if not params:
        return True
    hits = []
    for k, v in params.items():
        x = getattr(f, k, None)
        hits.append((False if x is None else x) == v)
    return all(hits) if all_ else any(hits)

class Broken(Exception):
    pass

def filter_spec(f, all_, params):
    """None (dropped), or (changed, field parts): what is kept of the field"""
    if not passes(f, all_, params):
        return None
    t = f.type
    if t in ('sequence', 'map'):
        c = f.item if t == 'sequence' else f.value
        o = filter_spec(c, all_, params)
        if o is None:
            raise Broken()
        return (o[0], f, o)
    if t == 'tuple':
        os = [filter_spec(c, all_, params) for c in f.values]
        if None in os:
            raise Broken()
        return (any(o[0] for o in os), f, os)
    if t == 'structure':
        if f.polymorphic_on is not None:
            name = f.polymorphic_on.name
            out, changed = {}, False
            for i, s in f.structure.items():
                out[i] = {}
                for k, c in s.items():
                    o = filter_spec(c, all_, params)
                    if k == name:
                        o = (False, c, None)
                    if o is None or o[0]:
                        changed = True
                    if o is not None:
                        out[i][k] = o
            return (changed, f, out)
        out, changed = {}, False
        for k, c in f.structure.items():
            o = filter_spec(c, all_, params)
            if o is None or o[0]:
                changed = True
            if o is not None:
                out[k] = o
        return (changed, f, out)
    return (False, f, None)

CHILDREN = {'sequence': 'item', 'map': 'value', 'tuple': 'values', 'structure': 'structure', 'union': 'fields'}

def tree_mismatch(h, spec, path, loose=False):
    """h is the field the specification describes"""
    changed, f, parts = spec
    if not changed:
        if h is not f and config(h) != config(f):
            return 'an unchanged field differs at %s' % path
        return None
    if parts == 'new':
        return None if h is f or config(h) == config(f) else 'not the new field at %s' % path
    if h is f:
        return 'the original was returned at %s' % path
    if type(h) is not type(f):
        return 'a field of another type at %s' % path
    slot = CHILDREN[f.type]
    rest = lambda z: dict((k, x) for k, x in z.__dict__.items() if k not in (slot, 'polymorphic_on'))
    if freeze(rest(h), None, False, SKIP) != freeze(rest(f), None, False, SKIP):
        return 'the configuration changed at %s' % path
    got = getattr(h, slot)
    if f.type in ('sequence', 'map'):
        return tree_mismatch(got, parts, path + '.' + slot)
    if f.type in ('tuple', 'union'):
        if len(got) != len(parts):
            return 'the wrong number of members at %s' % path
        for i, (c, o) in enumerate(zip(got, parts)):
            m = tree_mismatch(c, o, path + '[%d]' % i)
            if m:
                return m
        return None
    if f.polymorphic_on is None:
        got, parts = {None: got}, {None: parts}
    if set(got) != set(parts):
        return 'the wrong variants at %s' % path
    for i in got:
        if set(got[i]) != set(parts[i]):
            return 'the wrong members at %s: %s instead of %s' % (path, sorted(got[i]), sorted(parts[i]))
        for k, o in parts[i].items():
            if f.polymorphic_on is not None and k == f.polymorphic_on.name:
                continue
            m = tree_mismatch(got[i][k], o, path + '.' + k)
            if m:
                return m
    return None

def transform_spec(f, fn):
    """(changed, field or original, parts)"""
    x = fn(f)
    if isinstance(x, Field):
        return (x is not f, x, 'new') if x is not f else (False, f, None)
    if x is False:
        return (False, f, None)
    t = f.type
    if t in ('sequence', 'map'):
        o = transform_spec(f.item if t == 'sequence' else f.value, fn)
        return (o[0], f, o)
    if t in ('tuple', 'union'):
        os = [transform_spec(c, fn) for c in (f.values if t == 'tuple' else f.fields)]
        return (any(o[0] for o in os), f, os)
    if t == 'structure':
        if f.polymorphic_on is not None:
            out = dict((i, dict((k, transform_spec(c, fn) if k != f.polymorphic_on.name else (False, c, None))
                for k, c in s.items())) for i, s in f.structure.items())
            return (any(o[0] for s in out.values() for o in s.values()), f, out)
        out = dict((k, transform_spec(c, fn)) for k, c in f.structure.items())
        return (any(o[0] for o in out.values()), f, out)
    return (False, f, None)

def c19(rng):
    g = Gen(rng, hooks=False, aspects=True)
    rec = g.schema(3, g.pick(list(STRUCTURAL) * 3 + list(SCALARS)))
    if not make(rec):
        return None
    f = rec.real
    for _ in range(4):
        before = freeze(f)
        if g.p(0.5):
            params = {}
            for k in g.rng.sample(['required', 'nonnull', 'ignore_null', 'title', 'alpha', 'beta', 'missing',
                    'strict', 'unique', 'structural', 'name'], g.rng.randint(0, 2)):
                params[k] = g.pick([False, False, True, False, 1, 'x'])
            all_ = g.p(0.5)
            try:
                spec = filter_spec(f, all_, params)
            except Broken:
                spec = 'cannot'
            got = attempt(f.filter, all_, **params)
            what, detail = 'filter', {'all': all_, 'params': params}
            if spec == 'cannot':
                if got[0] == 'ok' or not isinstance(got[1], CannotFilterError):
                    return failure('an element that does not pass is not reported', rec, code=describe_real(got), **detail)
                continue
            if got[0] != 'ok':
                return failure('filtering failed', rec, code=describe_real(got), **detail)
            h = got[1]
            if (spec is None) != (h is None):
                return failure('the wrong fields pass', rec, code=describe_real(got), **detail)
            if spec is None:
                continue
        else:
            kinds = g.pick([['integer'], ['text', 'boolean'], ['structure'], ['date', 'float', 'sequence'], ['map', 'uuid']])
            act = g.pick(['new', 'clone', 'mixed', 'same', 'false', 'none'])
            stops = g.pick([[], [], ['structure'], ['sequence', 'union'], ['tuple', 'map']])
            made = {}
            def fn(x):
                if isinstance(x, Undefined):
                    return None
                if x.type in stops:
                    return False
                if x.type in kinds and act not in ('false', 'none'):
                    if act == 'same':
                        return x
                    if id(x) not in made:
                        made[id(x)] = (x, F.Boolean(name=x.name, title='transformed') if act == 'new' or
                            (act == 'mixed' and x.required) else x.clone(title='transformed'))
                    return made[id(x)][1]
                return False if act == 'false' and x.type in kinds else None
            what, detail = 'transform', {'kinds': kinds, 'act': act, 'stops': stops}
            spec = transform_spec(f, fn)
            got = attempt(f.transform, fn)
            if got[0] != 'ok':
                return failure('transforming failed', rec, code=describe_real(got), **detail)
            h = got[1]
        if freeze(f) != before:
            return failure('%s modifies the original' % what, rec, **detail)
        if not spec[0] and h is not f and not (rec.polymorphic_on is not None or has_poly(rec)):
            return failure('%s makes a copy though nothing changed' % what, rec, **detail)
        m = tree_mismatch(h, spec, 'root')
        if m:
            return failure('%s: %s' % (what, m), rec, code=h, **detail)
        if spec[0] and spec[2] != 'new':
            # what was kept as it is may be shared; what was copied is independent
            if h is f or (rec.type == 'structure' and h.structure is f.structure):
                return failure('%s does not copy' % what, rec, **detail)
    return None

def has_poly(rec):
    return rec.polymorphic_on is not None or any(has_poly(c) for c in kids(rec))

# ---------------------------------------------------------------- C20
def plant(g, rec, count, shared):
    """replaces some children by placeholders (each defined later, early, or both alike)"""
    def swap(c):
        if c.type == 'undefined' or c.loose:
            return c
        if g.p(0.35):
            if shared and g.p(0.5):
                return shared[0]
            u = Rec('undefined', field=plant(g, c, count, shared))
            u.late = g.p(0.75)
            u.early = not u.late and g.p(0.5)
            count.append(u)
            return u
        return plant(g, c, count, shared)
    t = rec.type
    if t == 'sequence':
        rec.item = swap(rec.item)
    elif t == 'tuple':
        rec.values = [swap(c) for c in rec.values]
    elif t == 'map':
        rec.value = swap(rec.value)
    elif t == 'union':
        rec.fields = [swap(c) for c in rec.fields]
    elif t == 'structure' and rec.polymorphic_on is None:
        rec.structure = dict((k, swap(c)) for k, c in rec.structure.items())
    elif t == 'structure':
        base = rec.base
        new = dict((i, dict((k, swap(c)) for k, c in s.items())) for i, s in base.items())
        disc, poly = rec.disc, rec.polymorphic_on
        rec.base = new
        common = new.get('*', {})
        for i in rec.structure:
            s = dict(new[i])
            s.update(common)
            s[poly.name] = rec.structure[i][poly.name]
            rec.structure[i] = s
    return rec

def build_pending(rec):
    """the real field with every late placeholder still undefined, and the definitions to make"""
    pending, made = [], {}
    def go(r):
        if r.type == 'undefined':
            if id(r) in made:
                return made[id(r)]
            u = made[id(r)] = Undefined()
            if r.field is not None:
                f = go(r.field)
                if r.late:
                    pending.append((u, f))
                elif r.early:
                    u.define(f)
                else:
                    u = made[id(r)] = Undefined(f)
            return u
        if id(r) in made:
            return made[id(r)]
        f = made[id(r)] = CLASSES[r.type](**arguments(r, go))
        r.__dict__['real'] = f
        return f
    return go(rec), pending

def placeholders(f, seen):
    """the placeholders still in a schema"""
    if id(f) in seen:
        return []
    seen.add(id(f))
    if isinstance(f, Undefined):
        return [f]
    out = []
    for k in ('item', 'value', 'key', 'values', 'fields', 'structure'):
        x = f.__dict__.get(k)
        todo = [x]
        while todo:
            y = todo.pop()
            if isinstance(y, (Field, Undefined)):
                out += placeholders(y, seen)
            elif isinstance(y, dict):
                todo += list(y.values())
            elif isinstance(y, (list, tuple)):
                todo += list(y)
    return out

def c20(rng):
    g = Gen(rng, hooks=False, constants=False)
    rec = g.schema(2, g.pick(list(STRUCTURAL)))
    shared = []
    if g.p(0.4):
        target = g.schema(1)
        shared.append(Rec('undefined', field=target, late=True))
    count = []
    plant(g, rec, count, shared)
    straight = unplant(rec)
    try:
        f, pending = build_pending(rec)
        direct = build_pending(straight)[0]
    except (TypeError, ValueError, AttributeError):
        return None
    late = [u for u, x in pending]
    left = placeholders(f, set())
    for u in left:
        if u not in late:
            return failure('an already defined placeholder was not replaced', rec)
    for _ in range(4):
        v = pick_value(g, straight)
        for op in (lambda: f.process(v, *g.pick(PHASES)), lambda: f.extract(v, g.p(0.5)),
                lambda: f.interpolate(v, PARAMS)):
            r = attempt(op)
            if pending and r[0] == 'raised' and not isinstance(r[1], SchemeErrors):
                if isinstance(r[1], (AttributeError, NotImplementedError)) and not isinstance(v, Thing):
                    return failure('an undefined placeholder is not reported as such', rec, value=v, code=describe_real(r))
    bad = undefined_used(g, rec, f, pending)
    if bad:
        return bad
    order = list(pending)
    g.rng.shuffle(order)
    for u, x in order:
        u.define(x)
    if placeholders(f, set()):
        return failure('a placeholder remains after its definition', rec)
    seen = set()
    bad = names_missing(f)
    if bad:
        return failure(bad, rec)
    bad = behaves(g, straight, direct, f, 'the completed schema', 6)
    if bad:
        bad['schema'] = show(rec)
        return bad
    for _ in range(2):
        v = g.value(straight)
        for name in ('extract', 'instantiate', 'describe', 'interpolate'):
            if name == 'instantiate' and has_type(straight, 'union'):
                continue
            args = {'extract': (v,), 'instantiate': (v,), 'describe': (), 'interpolate': (v, PARAMS)}[name]
            if name == 'instantiate' and attempt(direct.process, v)[0] != 'ok':
                continue
            a, b = attempt(getattr(direct, name), *args), attempt(getattr(f, name), *args)
            if a[0] != b[0] or a[0] == 'ok' and not same(a[1], b[1]):
                return failure('%s of the completed schema differs' % name, rec, value=v, contract=describe_real(a),
                    code=describe_real(b))
    return None

SchemeErrors = (UndefinedFieldError, StructuralError, CannotExtractError, CannotInterpolateError,
    UndefinedParameterError, FieldExcludedError)

def names_missing(f, depth=0):
    if isinstance(f, Undefined) or depth > 6:
        return None
    if f.type == 'structure':
        for s in (f.structure.values() if f.polymorphic_on is not None else [f.structure]):
            for k, c in s.items():
                if not c.name:
                    return 'the member %r did not take its key as name' % k
                bad = names_missing(c, depth + 1)
                if bad:
                    return bad
    for k in ('item', 'value'):
        c = f.__dict__.get(k)
        if isinstance(c, Field):
            bad = names_missing(c, depth + 1)
            if bad:
                return bad
    return None

def unplant(rec):
    """the schema with every placeholder replaced by its definition"""
    memo = {}
    def out(r):
        while r.type == 'undefined':
            r = r.field
        if id(r) in memo:
            return memo[id(r)]
        old, r = r, r.copy()
        memo[id(old)] = r
        for k in ('item', 'value', 'key'):
            if isinstance(r.__dict__.get(k), Rec):
                r.__dict__[k] = out(r.__dict__[k])
        for k in ('values', 'fields'):
            if k in r.__dict__:
                r.__dict__[k] = [out(x) for x in r.__dict__[k]]
        if r.type == 'structure':
            if r.polymorphic_on is None:
                r.structure = dict((k, out(x)) for k, x in r.structure.items())
            else:
                r.base = dict((i, dict((k, out(x)) for k, x in s.items())) for i, s in r.base.items())
                name = r.polymorphic_on.name
                r.structure = dict(r.structure)
                for i, s in list(r.structure.items()):
                    new = dict(r.base[i])
                    new.update(r.base.get('*', {}))
                    new[name] = s[name]
                    r.structure[i] = new
        return r
    return out(rec)

def undefined_used(g, rec, f, pending):
    """with its placeholders undefined the schema reports the undefined field exactly when it is needed"""
    if not pending:
        return None
    saved = [(u, u.field) for u in all_undefined(rec, []) if u.late]
    reals = dict((id(c), c.__dict__.get('real')) for c in all_records(rec, []))
    for u, x in saved:
        u.__dict__['field'] = None
    try:
        for _ in range(4):
            v = pick_value(g, rec)
            phase, ser = g.pick(PHASES)
            if phase == 'inbound' and ser:
                v = g.serialized(rec, v)
            spec = spec_process(rec, v, phase, ser)
            real = attempt(f.process, v, phase, ser)
            if spec is None or real[0] == 'recursion':
                continue
            m = process_mismatch(real, spec, 'outcome')
            if m and (spec[0] == 'undefined' or real[0] == 'raised' and isinstance(real[1], UndefinedFieldError)) \
                    and not both_fail(spec, real):
                return failure(m, rec, value=v, phase=phase, serialized=ser, contract=spec[0], code=describe_real(real))
    finally:
        for u, x in saved:
            u.__dict__['field'] = x
    return None

def both_fail(spec, real):
    """which of an undefined placeholder and an invalid key is met first is left open"""
    return spec[0] != 'ok' and real[0] != 'ok' and isinstance(real[1], (UndefinedFieldError, ValidationError))

def all_undefined(rec, out):
    if rec.type == 'undefined':
        if rec in out:
            return out
        out.append(rec)
    for c in kids(rec):
        all_undefined(c, out)
    return out

def all_records(rec, out):
    out.append(rec)
    for c in kids(rec):
        all_records(c, out)
    return out

# ---------------------------------------------------------------- C21
def jsonable(g, depth=2):
    r = g.rng.randrange(9 if depth else 6)
    if r == 0:
        return None
    if r == 1:
        return g.p(0.5)
    if r == 2:
        return g.int_()
    if r == 3:
        return g.rng.randint(-50, 50) / 4.0
    if r < 6:
        return g.text_()
    if r < 8:
        return dict((g.pick(NAMES + ['', 'a b', 'é']), jsonable(g, depth - 1)) for _ in range(g.rng.randint(0, 3)))
    return [jsonable(g, depth - 1) for _ in range(g.rng.randint(0, 3))]

def c21(rng):
    g = Gen(rng, hooks=False)
    base = tempfile.mkdtemp(prefix='vc21')
    kept = dict(Format.formats)
    try:
        return formats_case(g, base)
    finally:
        shutil.rmtree(base, True)
        Format.formats.clear()
        Format.formats.update(kept)

def raises(kind, fn, *args, **kw):
    r = attempt(fn, *args, **kw)
    return r[0] == 'raised' and isinstance(r[1], kind)

def put(path, text):
    with open(path, 'w') as openfile:
        openfile.write(text)

def formats_case(g, base):
    log = []
    meta = type(Format)
    def writer(cls, value, schema=None, **params):
        log.append(('serialize', cls.name, copy.deepcopy(value), schema, dict(params)))
        return cls.name + ':' + json.dumps(value)
    def reader(cls, value, schema=None, **params):
        log.append(('unserialize', cls.name, value, schema, dict(params)))
        return json.loads(value.split(':', 1)[1])
    tag = 'fmt%d' % g.rng.randrange(1000)
    space = {'name': tag, 'serialize': classmethod(writer), 'unserialize': classmethod(reader)}
    mime = g.pick([None, 'application/x-' + tag])
    exts = g.pick([None, [], ['.%s' % tag], ['.%s' % tag, '.two' + tag]])
    if mime:
        space['mimetype'] = mime
    if exts is not None:
        space['extensions'] = exts
    custom = meta('Custom', (Format,), space)
    known = [x for x in set(Format.formats.values()) if x.name]
    for x in known:
        names = [x.name, x] + ([x.mimetype] if x.mimetype else []) + [e for e in (x.extensions or []) if e[0] == '.']
        for n in names:
            if Format.formats.get(n) is not x:
                return failure('a format is not found', x.__name__, by=n, code=Format.formats.get(n))
    v = jsonable(g)
    names = [custom, tag] + ([mime] if mime else []) + list(exts or [])
    n = g.pick(names)
    del log[:]
    r = attempt(Format.serialize, v, n, None, alpha=1)
    if r[0] != 'ok' or [x[1] for x in log] != [tag] or not same(log[0][2], v) or log[0][4] != {'alpha': 1}:
        return failure('serialized with another format', repr(n), value=v, code=describe_real(r))
    back = attempt(Format.unserialize, r[1], n)
    if back[0] != 'ok' or not same(back[1], v):
        return failure('not unserialized with the format', repr(n), value=v, code=describe_real(back))
    # files
    rec = native_only(g)
    clean_roundtrip(rec)
    make(rec)
    f = rec.real
    value = attempt(f.process, g.value(rec), 'outbound', False)
    if value[0] != 'ok':
        return None
    value = value[1]
    out = attempt(f.process, value, 'outbound', True)
    if out[0] != 'ok':
        return failure('a value cannot be serialized', rec, value=value)
    ext = g.pick(['.json', '.JSON', '.Json'] + [e for e in exts or []] + [e.upper() for e in exts or []])
    fmt = custom if ext.lower() != '.json' else Format.formats['json']
    explicit = None
    if g.p(0.4):
        explicit = g.pick([tag, custom, 'json', 'application/json', Format.formats['json']])
        fmt = Format.formats[explicit]
        if g.p(0.5):
            ext = g.pick(['', '.unknown', '.json', '.yaml'])
    path = os.path.join(base, 'file.name' + ext)
    del log[:]
    w = attempt(f.write, path, value, explicit) if explicit else attempt(f.write, path, value)
    if w[0] != 'ok':
        return failure('a file cannot be written', rec, value=value, path=ext, format=explicit, code=describe_real(w))
    with open(path) as openfile:
        text = openfile.read()
    want = (tag + ':' if fmt is custom else '') + json.dumps(out[1])
    if text != want:
        return failure('the file was written otherwise', rec, value=value, path=ext, format=explicit, contract=want, code=text)
    if fmt is custom and (log[0][3] is not f or not same(log[0][2], out[1])):
        return failure('the format was not given the processed value and the schema', rec, value=value)
    del log[:]
    rd = attempt(f.read, path, explicit) if explicit else attempt(f.read, path)
    expect = attempt(f.process, json.loads(json.dumps(out[1])), 'inbound', True)
    if not equal_outcomes(summary(expect), summary(rd)):
        return failure('reading back differs', rec, value=value, path=ext, format=explicit, contract=describe_real(expect), code=describe_real(rd))
    s1 = attempt(f.serialize, value, g.pick([fmt, fmt.name]))
    if s1[0] != 'ok' or s1[1] != want:
        return failure('serialize differs', rec, value=value, contract=want, code=describe_real(s1))
    u1 = attempt(f.unserialize, want, g.pick([fmt, fmt.name]))
    if not equal_outcomes(summary(expect), summary(u1)):
        return failure('unserialize differs', rec, value=value, contract=describe_real(expect), code=describe_real(u1))
    via = attempt(fmt.read, path, None) if g.p(0.5) else attempt(Format.read, path, fmt)
    if via[0] != 'ok' or not same(via[1], json.loads(json.dumps(out[1]))):
        return failure('Format.read differs', rec, value=value, code=describe_real(via))
    # an explicit format counts, whichever class it is given to
    owner, other = g.pick([Format, custom, Format.formats['json']]), g.pick([custom, Format.formats['json']])
    there = os.path.join(base, 'explicit' + g.pick(['', '.json', '.unknown', '.yaml'] + list(exts or [])))
    w = attempt(owner.write, there, v, g.pick([other, other.name]))
    rd = attempt(owner.read, there, g.pick([other, other.name])) if w[0] == 'ok' else w
    if rd[0] != 'ok' or not same(rd[1], v):
        return failure('a file is not written and read with the explicit format', owner.__name__, value=v, format=other.name,
            code=describe_real(rd))
    with open(there) as openfile:
        text = openfile.read()
    if text != (tag + ':' if other is custom else '') + json.dumps(v):
        return failure('a file is not written with the explicit format', owner.__name__, value=v, format=other.name, code=text)
    # null is data like any other, whatever the default
    spare = g.pick([F.Integer(default=3), F.Text(default='d'), F.Sequence(F.Integer(), default=[1]), F.Boolean(default=False)])
    blank = os.path.join(base, 'null.json')
    for n in (None, spare.default):
        r = attempt(spare.write, blank, n)
        r = attempt(spare.read, blank) if r[0] == 'ok' else r
        if r[0] != 'ok' or not same(r[1], n):
            return failure('a value written is not read back', spare.type, value=n, code=describe_real(r))
        r = attempt(spare.serialize, n, 'json')
        r = attempt(spare.unserialize, r[1], 'json') if r[0] == 'ok' else r
        if r[0] != 'ok' or not same(r[1], n):
            return failure('a value serialized is not read back', spare.type, value=n, code=describe_real(r))
    # values refused outbound are not written; a refused value inbound is refused
    wrong = g.bad(rec, 0.5)
    if attempt(f.process, wrong, 'outbound', True)[0] == 'raised':
        missing = os.path.join(base, 'other.json')
        if not raises(StructuralError, f.write, missing, wrong):
            return failure('an invalid value was written', rec, value=wrong)
        if os.path.exists(missing) and os.path.getsize(missing):
            return failure('an invalid value reached the file', rec, value=wrong)
    # unknown and missing
    plain_path = os.path.join(base, 'p.json')
    put(plain_path, '1')
    odd = os.path.join(base, 'p.nothing')
    put(odd, '1')
    bare = os.path.join(base, 'bare')
    put(bare, '1')
    tests = [('unknown format', Format.read, (plain_path, 'nope'), {}), ('unknown format', Format.write, (plain_path, 1, 'nope'), {}),
        ('unknown extension', Format.read, (odd,), {}), ('unknown extension', Format.write, (odd, 1), {}),
        ('no extension', Format.read, (bare,), {}), ('no extension', Format.write, (bare, 1), {}),
        ('missing file', Format.read, (os.path.join(base, 'gone.json'),), {}),
        ('missing file', Format.read, (os.path.join(base, 'gone.json'), 'json'), {}),
        ('missing file', f.read, (os.path.join(base, 'gone.json'),), {})]
    name, fn, args, kw = g.pick(tests)
    if not raises(ValueError, fn, *args, **kw):
        return failure('%s is not reported with ValueError' % name, repr(args[1:]), code=describe_real(attempt(fn, *args, **kw)))
    q = attempt(Format.read, os.path.join(base, 'gone.json'), g.pick([None, 'json']), None, True)
    if q != ('ok', False):
        return failure('a missing file read quietly does not give False', '', code=describe_real(q))
    q = attempt(Format.read, plain_path, g.pick([None, 'json']), None, True)
    if q != ('ok', 1):
        return failure('a file read quietly does not give its content', '', code=describe_real(q))
    return None

def native_only(g):
    """a schema of JSON-representable data"""
    g.leaves = ['integer', 'float', 'boolean', 'text', 'uuid', 'token', 'date', 'decimal']
    g.constants = False
    rec = g.schema(2, g.pick(['sequence', 'structure', 'integer', 'text', 'date']))
    def clean(r):
        r.__dict__.pop('default', None)
        if r.type == 'map':
            for k in ('key', 'required_keys'):
                r.__dict__.pop(k, None)
        if r.type == 'structure' and r.polymorphic_on is not None:
            r.__dict__.clear()
            r.__dict__['type'] = 'boolean'
        if r.type in ('union', 'tuple', 'float', 'datetime', 'binary', 'enumeration'):
            r.__dict__.clear()
            r.__dict__['type'] = 'integer'
        for c in kids(r):
            clean(c)
        return r
    return clean(rec)

# ---------------------------------------------------------------- C26
def c26(rng):
    g = Gen(rng)
    g.fractions = False
    if rng.random() < 0.3:
        return equivalents(g)
    t = g.pick(sorted(set(OWN) - {'definition', 'object', 'error', 'field', 'email', 'boolean', 'uuid'}))
    args = {}
    field = lambda: g.pick([F.Integer(), F.Text(), Undefined(), Undefined(F.Boolean()), F.Sequence(F.Integer())])
    junk = lambda: g.pick([1, 'a', None, object(), [], {}, (), Field, F.Integer, True, 2.5, [1], {'a': 1}, b'x'])
    maybe = lambda make: make() if g.p(0.8) else junk()
    bound = lambda: maybe(lambda: g.native(t)) if g.p(0.6) else g.any(1)
    length = lambda: g.pick([None, 0, 1, 5, -1, 2.0, '3', True, [], -100, 10 ** 20, 1.5])
    for k in OWN[t]:
        if g.p(0.55) or k in ('item', 'values', 'value', 'structure', 'fields', 'enumeration'):
            if k in ('minimum', 'maximum'):
                args[k] = bound()
                if isinstance(args[k], str) or g.p(0.1):
                    args[k] = g.pick(['1', '2000-01-01', '12:30:00', '2000-01-01T10:00:00Z', 'nope', '', 'NaN', '1.5', '-3',
                        '2000-13-01', '25:00:00'])
            elif k in ('min_length', 'max_length'):
                args[k] = length()
            elif k in ('item', 'value'):
                args[k] = maybe(field)
            elif k == 'key':
                args[k] = g.pick([None, F.Text(), F.Integer()]) if g.p(0.7) else junk()
            elif k in ('values', 'fields'):
                args[k] = maybe(lambda: [maybe(field) for _ in range(g.rng.randint(0, 3))])
                if isinstance(args[k], list) and g.p(0.4):
                    args[k] = tuple(args[k])
                elif g.p(0.15):
                    args[k] = g.pick([field(), set([F.Integer()]), iter([F.Integer()]), {'a': F.Integer()}, 'ab'])
            elif k == 'enumeration':
                args[k] = maybe(lambda: g.pick(['a b', ['a', 1, None], [object()], [1, {2}], ('a',), [Field], [b'a'], [date.min]]))
            elif k == 'ignored_values':
                args[k] = g.pick([None, 'a b', ['a', 0], [object()], 5, ('a',), [], ['x', date.min], [None, 'b'], ['', 0, None]])
            elif k == 'structure':
                args[k] = maybe(lambda: dict((n, maybe(field)) for n in g.rng.sample(NAMES, g.rng.randint(0, 3))))
            elif k == 'polymorphic_on':
                args[k] = g.pick([None, 'kind', F.Token(name='kind'), F.Token(name='kind', required=True), 5, object(), ['x']])
                if args[k] is not None and g.p(0.8):
                    args['structure'] = dict((i, maybe(lambda: dict((n, maybe(field)) for n in g.rng.sample(NAMES, g.rng.randint(0, 2)))))
                        for i in g.rng.sample(['x', 'y', '*', 'z'], g.rng.randint(1, 3)))
            elif k == 'key_order':
                args[k] = g.pick([None, 'a b', ['a'], 5, [], ('a',), {}, '', {'a': 1}, set(['a']), frozenset()])
            elif k == 'required_keys':
                args[k] = g.pick([None, 'a b', ['a'], ('a',), 5, {}, [], {'a': 1}])
            elif k in ('unique', 'strict', 'utc', 'strip'):
                args[k] = g.p(0.5)
            elif k == 'pattern':
                args[k] = g.pick([None, '^a', '.*', '(', '[', 'a{99999999999}'])
            elif k == 'segments':
                args[k] = g.pick([None, 1, 2])
    if g.p(0.2):
        args['nonempty'] = True
    if g.p(0.2):
        args['errors'] = g.pick([list, tuple, lambda x: dict((e.token, e) for e in x)])(
            [FieldError(x, 'title ' + x, 'message') for x in g.rng.sample(['invalid', 'nonnull', 'extra'], g.rng.randint(1, 3))])
    before = dict(CLASSES[t].errors)
    given = dict((k, (type(v), list(v))) for k, v in args.items() if type(v) in (list, tuple, dict, set))
    r = attempt(CLASSES[t], **args)
    if CLASSES[t].errors != before:
        changed = dict(CLASSES[t].errors)
        CLASSES[t].errors.clear()
        CLASSES[t].errors.update(before)
        return failure('constructing a field changes its class', t, arguments=args, code=sorted(changed))
    for k in given:
        if k != 'structure' and (type(args[k]), list(args[k])) != given[k]:
            return failure('constructing a field changes the argument %r' % k, t, arguments=args, contract=given[k])
    if r[0] == 'raised':
        if isinstance(r[1], (TypeError, ValueError)):
            return None
        return failure('the constructor raises something else', t, arguments=args, code=describe_real(r))
    bad = meaningless(t, r[1])
    if bad:
        return failure(bad, t, arguments=args, code=r[1].__dict__)
    bad = stored(t, args, r[1])
    if bad:
        return failure(bad, t, arguments=args, code=r[1].__dict__)
    return None

BOUND = {'integer': int, 'float': float, 'decimal': decimal, 'date': date, 'datetime': datetime, 'time': time}

def meaningless(t, f):
    ok = lambda c: isinstance(c, (Field, Undefined))
    for k in ('minimum', 'maximum'):
        x = f.__dict__.get(k)
        if t in BOUND and x is not None and not isinstance(x, BOUND[t]):
            return 'a bound is not of the type of the field'
        if t == 'decimal' and x is not None and x.is_nan():
            return 'a bound is not a number'
    for k in ('min_length', 'max_length'):
        x = f.__dict__.get(k)
        if x is not None and not (isinstance(x, int) and x >= 0):
            return 'a length is not a non-negative integer'
    if t == 'sequence' and not ok(f.item):
        return 'the item is not a field'
    if t == 'map' and (not ok(f.value) or f.key is not None and not isinstance(f.key, Field)):
        return 'the key or the value is not a field'
    if t == 'map' and f.required_keys is not None and not isinstance(f.required_keys, (list, tuple)):
        return 'the required keys are not a list'
    if t in ('tuple', 'union'):
        xs = f.values if t == 'tuple' else f.fields
        if not isinstance(xs, tuple) or not xs or not all(map(ok, xs)):
            return 'the members are not fields'
    if t == 'structure':
        if f.polymorphic_on is not None and not isinstance(f.polymorphic_on, Field):
            return 'the discriminator is not a field'
        for s in (f.structure.values() if f.polymorphic_on is not None else [f.structure]):
            if not isinstance(s, dict) or not all(map(ok, s.values())):
                return 'a member is not a field'
            if f.polymorphic_on is not None and f.polymorphic_on.name not in s:
                return 'a variant lacks the discriminator'
            for k, c in s.items():
                if isinstance(c, Field) and not c.name:
                    return 'a member without a name'
        if f.polymorphic_on is not None:
            if not f.polymorphic_on.required:
                return 'the discriminator is not required'
            for i, s in f.structure.items():
                if s[f.polymorphic_on.name].constant != i:
                    return 'the discriminator of a variant does not name it'
            if '*' in f.structure:
                return 'the common fields are a variant'
        if f.key_order is not None and not isinstance(f.key_order, list):
            return 'the key order is not a list'
    if t == 'enumeration':
        for x in list(f.enumeration) + list(f.ignored_values or ()):
            if not (x is None or isinstance(x, (bool, int, float, str, dict, list, tuple))):
                return 'a value of the enumeration is not natively serializable'
    return None

def stored(t, args, f):
    """meaningful parameters are kept"""
    for k in ('minimum', 'maximum', 'unique', 'strict', 'strip', 'segments', 'item', 'value', 'key'):
        if k not in args:
            continue
        want, got = args[k], f.__dict__.get(k)
        if isinstance(want, Undefined):
            want = want.field if want.field is not None else want
        if isinstance(want, str) and k in ('minimum', 'maximum'):
            conv = {'date': V.as_date, 'time': V.as_time, 'decimal': V.as_decimal,
                'datetime': lambda x: V.as_instant(Rec('datetime', utc=args.get('utc')), x)}[t]
            want = conv(want)
        elif t == 'datetime' and k in ('minimum', 'maximum'):
            want = V.as_instant(Rec('datetime', utc=args.get('utc')), want)
            if not (want is got or want == got):
                return 'the parameter %r was not kept' % k
            continue
        elif t == 'date' and isinstance(want, datetime):
            want = want.date()
        if not (want is got or type(want) is type(got) and (want == got or want != want)):
            return 'the parameter %r was not kept' % k
    for k in ('min_length', 'max_length'):
        if k in args and f.__dict__.get(k) != args[k] and not (k == 'min_length' and args[k] is None and args.get('nonempty')):
            return 'the parameter %r was not kept' % k
    for k in ('key_order', 'required_keys', 'ignored_values', 'enumeration'):
        if k in args:
            want = args[k].split(' ') if isinstance(args[k], str) and not (k == 'key_order' and not args[k]) else args[k]
            if isinstance(want, (list, tuple, type(None))) and list(f.__dict__.get(k) or ()) != list(want or ()):
                return 'the parameter %r was not kept' % k
    if 'errors' in args:
        es = args['errors'].values() if isinstance(args['errors'], dict) else args['errors']
        want = dict(type(f).errors)
        want.update((e.token, e) for e in es)
        if dict(f.errors) != want:
            return 'the errors were not kept'
    for k in ('values', 'fields'):
        if isinstance(args.get(k), (list, tuple)):
            want = [c.field if isinstance(c, Undefined) and c.field is not None else c for c in args[k]]
            if [id(c) for c in want] != [id(c) for c in f.__dict__[k]]:
                return 'the members were not kept'
    return None

def equivalents(g):
    """spellings that must give the same configuration"""
    d, dt, tm = g.date_(), g.datetime_().replace(tzinfo=scheme.timezone.UTC), g.time_().replace(tzinfo=None)
    dc = decimal(g.rng.randint(-500, 500)) / 4
    k = g.pick(['minimum', 'maximum'])
    utc = g.p(0.5)
    ks = g.rng.sample(NAMES, g.rng.randint(1, 4))
    cases = [
        (F.Date, {k: d}, {k: d.isoformat()}),
        (F.DateTime, {k: dt, 'utc': utc}, {k: dt.strftime('%Y-%m-%dT%H:%M:%SZ'.replace('%Y', '%04d' % dt.year)), 'utc': utc}),
        (F.Time, {k: tm}, {k: tm.strftime('%H:%M:%S')}),
        (F.Decimal, {k: dc}, {k: str(dc)}),
        (F.Enumeration, {'enumeration': ks}, {'enumeration': ' '.join(ks)}),
        (F.Enumeration, {'enumeration': 'p q', 'ignored_values': ks}, {'enumeration': ['p', 'q'], 'ignored_values': ' '.join(ks)}),
        (F.Map, {'value': F.Integer(), 'required_keys': ks}, {'value': F.Integer(), 'required_keys': ' '.join(ks)}),
        (F.Structure, {'structure': dict((x, F.Integer()) for x in ks), 'key_order': ks},
            {'structure': dict((x, F.Integer()) for x in ks), 'key_order': ' '.join(ks)}),
        (F.Text, {'pattern': '^ab*'}, {'pattern': __import__('re').compile('^ab*')}),
        (F.Text, {'nonempty': True}, {'nonnull': True, 'required': True, 'min_length': 1}),
        (F.Integer, {'nonempty': True}, {'nonnull': True, 'required': True}),
        (F.Structure, {'structure': {'x': {'a': F.Integer()}, 'y': {}, '*': {'c': F.Text()}}, 'polymorphic_on': 'kind'},
            {'structure': {'x': {'a': F.Integer(), 'c': F.Text()}, 'y': {'c': F.Text()}},
             'polymorphic_on': F.Enumeration(['x', 'y'], nonempty=True, name='kind')}),
        (F.Sequence, {'item': F.Integer()}, {'item': Undefined(F.Integer())}),
        (F.Tuple, {'values': [F.Integer(), F.Text()]}, {'values': (F.Integer(), F.Text())}),
    ]
    cls, a, b = g.pick(cases)
    x, y = attempt(cls, **a), attempt(cls, **b)
    if x[0] != y[0]:
        return failure('equivalent parameters are treated differently', cls.__name__, one=a, other=b, code=(x, y))
    if x[0] == 'ok' and config(x[1]) != config(y[1]):
        return failure('equivalent parameters give different fields', cls.__name__, one=a, other=b,
            contract=config(x[1]), code=config(y[1]))
    return None

# ---------------------------------------------------------------- C27
def nest(g, depth):
    if depth == 0 or g.p(0.25):
        return g.pick([1, 'x', None, [], (1,), False, 0, '', {}])
    return dict((g.pick(['a', 'b', 'c', '', 'a b', '0']), nest(g, depth - 1)) for _ in range(g.rng.randint(0, 3)))

def walk_spec(x, keys):
    for k in keys:
        if not isinstance(x, dict):
            return ('type',)
        if k not in x:
            return ('key',)
        x = x[k]
    return ('ok', x)

def merge_spec(a, b):
    """what the merged dict holds"""
    out = dict(a)
    for k, x in b.items():
        out[k] = merge_spec(a[k], x) if k in a and isinstance(a[k], dict) and isinstance(x, dict) else x
    return out

def c27(rng):
    g = Gen(rng)
    for _ in range(6):
        x = nest(g, 3)
        keys = []
        y = x
        while True:
            if isinstance(y, dict) and y and g.p(0.8):
                k = g.pick(list(y))
                keys.append(k)
                y = y[k]
            else:
                break
        if not keys or g.p(0.25):
            keys.append(g.pick(['a', 'b', 'zz', '']))
        while g.p(0.2):
            keys.insert(g.rng.randint(0, len(keys)), g.pick(['a', 'b', 'zz', '']))
        path = '.'.join(keys)
        keys = path.split('.')
        spec = walk_spec(x, keys)
        before = freeze(x)
        got = attempt(traverse_to_key, x, path)
        if freeze(x) != before:
            return failure('traversing changes the value', brief(x), path=path)
        bad = walked(got, spec)
        if bad or spec[0] == 'ok' and got[1] is not spec[1]:
            return failure('traversing gives the wrong outcome', brief(x), path=path, contract=spec, code=describe_real(got))
        parent = walk_spec(x, keys[:-1])
        if parent[0] == 'ok' and not isinstance(parent[1], dict):
            parent = ('type',)
        new = g.pick([5, {'n': 1}, None])
        want = copy.deepcopy(x)
        if parent[0] == 'ok':
            z = want
            for k in keys[:-1]:
                z = z[k]
            z[keys[-1]] = new
        got = attempt(set_nested_value, x, path, new)
        if walked(got, parent) or not same(x, want):
            return failure('setting a nested value gives the wrong outcome', brief(want), path=path, contract=parent,
                code=describe_real(got), value=x)
    a = dict((k, nest(g, 3)) for k in g.rng.sample(['a', 'b', 'c', 'd'], g.rng.randint(0, 4)))
    b = dict((k, nest(g, 3)) for k in g.rng.sample(['a', 'b', 'c', 'd'], g.rng.randint(0, 4)))
    if g.p(0.5):
        b = dict((k, copy.deepcopy(v) if g.p(0.5) else nest(g, 2)) for k, v in a.items())
    want, kept, old = merge_spec(a, b), freeze(b), brief(a, 1000)
    got = attempt(recursive_merge, a, b)
    if got[0] != 'ok' or got[1] is not a or not same(a, want):
        return failure('the merge is wrong', old, value=b, contract=want, code=describe_real(got))
    if freeze(b) != kept:
        return failure('the merge modifies the addition', old, value=b)
    return None

def walked(got, spec):
    if spec[0] == 'ok':
        return got[0] != 'ok'
    kind = TypeError if spec[0] == 'type' else KeyError
    return got[0] != 'raised' or type(got[1]) is not kind
