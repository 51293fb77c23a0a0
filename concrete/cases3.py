"""Generated cases of the codecs: C22 (XML), C23 (CSV), C24 (structured text, URL-encoded), C28 (surrogates); see cases.py."""
import copy
import json
import sys
import types
import uuid
from datetime import date, datetime, time
from decimal import Decimal as decimal
from xml.dom import minidom

import scheme
from scheme import fields as F
from scheme.exceptions import *
from scheme.field import Field
from scheme.surrogate import surrogate
from scheme.format import Format
from scheme.formats import Csv, StructuredText, UrlEncoded, Xml
from concrete.compare import attempt, brief, describe_real, same
from concrete.gen import Gen, INTS, NAMES
from concrete.cases import failure, natively
from concrete.cases2 import freeze, native_schema
from concrete.records import Rec, build

# ---------------------------------------------------------------- plain fields and values of them
TEXTUAL = ('text', 'token', 'enumeration', 'uuid', 'date', 'time', 'datetime', 'decimal')
TAGS = ['a', 'b', 'ab', 'A', '_', '_a', 'a-b', 'a.b', 'a1', 'item', 'value', 'null', 'true', 'key', 'id', 'root', 'items',
    'xmlns', 'structure', 'text']
PIECES = ['a', 'b', ' ', '  ', '\t', '\n', '<', '>', '&', '"', "'", '&amp;', '&#10;', '<a/>', '<!--', '-->', ']]>', '<![CDATA[',
    'null', 'true', '0', '\u00e9', '\u4e2d', '\U0001f600', '\u00a0', '\u2028', '\x7f', '\x85', '%s', '{', '}']
CELLS = ['a', 'b', ' ', '  ', '\t', '\n', '\r', '\r\n', ',', '"', '""', "'", ';', '\\', 'true', 'false', '0', '1.5', '\u00e9',
    '\u4e2d', '\U0001f600', '\u00a0', '\u2028', '\x0b', '\x0c', '\x1c', '\x85', '#', '\ufeff']

def piece_text(g, pieces):
    if g.p(0.15):
        return ''
    if g.p(0.03):
        return g.pick(pieces) * g.rng.randint(30, 400)
    return ''.join(g.pick(pieces) for _ in range(g.rng.randint(1, 5)))

def number(g, integral):
    if integral:
        return g.pick([0, 1, -1, 2 ** 31, -2 ** 63 - 1, 10 ** 25, -10 ** 40, g.rng.randint(-2000, 2000), g.pick(INTS)])
    return g.pick([0.0, -0.0, 1.0, 0.1, -2.5, 1e300, 1e-300, 5e-324, float('inf'), float('-inf'), 1e16, 123456789.123456789,
        g.rng.uniform(-100, 100), g.rng.random() * 10.0 ** g.rng.randint(-30, 30)])

def leaf(g, kind, pieces, **params):
    """a field and a source of native values it accepts"""
    if kind == 'boolean':
        return F.Boolean(**params), lambda: g.p(0.5)
    if kind == 'integer':
        return F.Integer(**params), lambda: number(g, True)
    if kind == 'float':
        return F.Float(**params), lambda: number(g, False)
    if kind == 'binary':
        return F.Binary(**params), g.bytes_
    if kind == 'text':
        return F.Text(strip=g.p(0.3), **params), lambda: piece_text(g, pieces)
    if kind == 'token':
        return F.Token(**params), lambda: ':'.join(g.pick(['a', 'b1', 'a-b', 'c.d']) for _ in range(g.rng.randint(1, 3)))
    if kind == 'enumeration':
        members = [piece_text(g, pieces) for _ in range(g.rng.randint(1, 3))]
        return F.Enumeration(members, **params), lambda: g.pick(members)
    if kind == 'uuid':
        return F.UUID(**params), lambda: str(uuid.UUID(int=g.rng.getrandbits(128)))
    if kind == 'date':
        return F.Date(**params), g.date_
    if kind == 'time':
        return F.Time(**params), lambda: time(g.rng.randrange(24), g.rng.randrange(60), g.rng.randrange(60))
    if kind == 'datetime':
        return F.DateTime(utc=True, **params), lambda: datetime(g.rng.randint(1971, 2037), g.rng.randint(1, 12), g.rng.randint(2, 27),
            g.rng.randrange(24), g.rng.randrange(60), g.rng.randrange(60))
    return F.Decimal(**params), lambda: decimal(g.pick(['0', '-0', '1.0', '1.00', '-12.50', '1E+30', '1E-30',
        '99999999999999999999.99', '0.1']))

KINDS = ('boolean', 'integer', 'float', 'binary', 'text', 'text', 'token', 'enumeration', 'uuid', 'date', 'time', 'datetime',
    'decimal')

def nested(g, depth, **params):
    """a field XML can carry and a source of native values"""
    if g.p(0.25):
        params['name'] = g.pick(TAGS)
    r = g.rng.randrange(8) if depth else 0
    if r < 2:
        return leaf(g, g.pick(KINDS), PIECES, **params)
    def maybe(source):
        return lambda: None if g.p(0.12) else source()
    def length():
        return g.rng.randint(20, 60) if g.p(0.02) else g.rng.randint(0, 4)
    if r < 4:
        item, source = nested(g, depth - 1)
        return F.Sequence(item, **params), lambda: [maybe(source)() for _ in range(length())]
    if r == 4:
        parts = [nested(g, depth - 1) for _ in range(g.rng.randint(1, 4))]
        return F.Tuple(tuple(p[0] for p in parts), **params), lambda: tuple(maybe(p[1])() for p in parts)
    if r == 5:
        value, source = nested(g, depth - 1)
        return F.Map(value, **params), lambda: dict((g.pick(TAGS), maybe(source)()) for _ in range(g.rng.randint(0, 4)))
    members = {}
    for _ in range(g.rng.randint(0, 4)):
        members[g.pick(TAGS)] = nested(g, depth - 1)
    f = F.Structure(dict((k, m[0]) for k, m in members.items()), strict=g.p(0.8), **params)
    return f, lambda: dict((k, maybe(m[1])()) for k, m in members.items() if g.p(0.75))

# ---------------------------------------------------------------- C22
def shown(f):
    r = attempt(repr, f)
    return r[1] if r[0] == 'ok' else '<%s>' % f.type

def c22(rng):
    g = Gen(rng, hooks=False)
    f, source = nested(g, g.rng.randint(0, 3))
    for _ in range(3):
        v = source() if g.p(0.95) else None
        r = attempt(f.process, v, 'outbound', True)
        if r[0] != 'ok':
            continue
        wire = r[1]
        for preamble in (True, False):
            kw = {'preamble': preamble} if g.p(0.7) or not preamble else {}
            t = attempt(Xml.serialize, wire, f, **kw)
            if t[0] != 'ok' or not isinstance(t[1], str):
                return failure('a processed value is not written', shown(f), value=wire, code=describe_real(t))
            back = attempt(Xml.unserialize, t[1], f)
            if back[0] != 'ok' or not same(back[1], wire):
                return failure('the value read back from XML differs', shown(f), value=wire, text=t[1],
                    contract='return %s' % brief(wire), code=describe_real(back))
            if (t[1].startswith('<?xml')) != preamble:
                return failure('the preamble is not the one asked for', shown(f), value=wire, text=t[1])
            try:
                root = minidom.parseString(t[1].encode('utf-8')).documentElement.tagName
            except Exception as e:
                return failure('the document is not well-formed: %r' % e, shown(f), value=wire, text=t[1])
            if root != (f.name or 'root'):
                return failure('the root element is %r' % root, shown(f), value=wire, text=t[1])
        direct = attempt(f.process, wire, 'inbound', True)
        t = attempt(f.serialize, v, 'xml')
        back = attempt(f.unserialize, t[1], 'xml') if t[0] == 'ok' else t
        if direct[0] == 'ok' and (back[0] != 'ok' or not same(back[1], direct[1])):
            return failure('the value the field reads back from XML differs', shown(f), value=v, code=describe_real(back),
                contract=describe_real(direct))
    return None

# ---------------------------------------------------------------- C23
COLUMNS = ['a', 'b', 'c', 'A', 'a b', '', '\u00e9', 'a"b', "it's", 'a\nb', 'true', '0', 'id', 'name', 'items']

def table(text):
    """the cells of a document in which every cell is quoted: written from RFC 4180, independent of the csv module"""
    rows, row, i = [], [], 0
    while i < len(text):
        if text[i] != '"':
            raise ValueError('a cell that is not quoted at %d' % i)
        cell, i = [], i + 1
        while not (text[i] == '"' and text[i + 1:i + 2] != '"'):
            cell.append(text[i])
            i += 2 if text[i] == '"' else 1
        row.append(''.join(cell))
        i += 1
        if text[i:i + 1] == ',':
            i += 1
        elif text[i:i + 2] == '\r\n':
            rows.append(row)
            row, i = [], i + 2
        else:
            raise ValueError('what follows a cell at %d' % i)
    return rows

def cell_text(v):
    if v is None:
        return ''
    if isinstance(v, bool):
        return 'true' if v else 'false'
    return v.decode('ascii') if isinstance(v, bytes) else str(v)

def c23(rng):
    g = Gen(rng, hooks=False)
    pieces = [p for p in CELLS if g.p(0.8)] or ['a']
    members = {}
    for _ in range(g.rng.randint(1, 5)):
        k = g.pick(COLUMNS)
        members[k] = leaf(g, g.pick(KINDS), pieces) if g.p(0.85) else nested(g, 1)
    flat = [k for k, m in members.items() if not m[0].structural]
    if not flat:
        return None
    item = F.Structure(dict((k, m[0]) for k, m in members.items()))
    f = F.Sequence(item)
    rows = []
    for _ in range(g.rng.randint(30, 80) if g.p(0.02) else g.rng.randint(0, 4)):
        rows.append(dict((k, None if g.p(0.1) else m[1]()) for k, m in members.items() if g.p(0.8)))
    r = attempt(f.process, rows, 'outbound', True)
    if r[0] != 'ok':
        return None
    wire = r[1]
    kw, selected = {}, sorted(flat)
    form = g.rng.randrange(6)
    if form in (1, 2, 3):
        asked = [g.pick(list(members) + ['missing']) for _ in range(g.rng.randint(1, 4))]
        asked = [k for i, k in enumerate(asked) if k not in asked[:i]]
        if form == 1:
            asked = [k for k in asked if ',' not in k]
        if [k for k in asked if k in flat] and ','.join(asked):
            selected = [k for k in asked if k in flat]
            kw['columns'] = ','.join(asked) if form == 1 else tuple(asked) if form == 2 else list(asked)
    elif form == 4:
        kw['columns'] = g.pick([None, [], ()])
    given = (wire, f) if g.p(0.8) else (tuple(wire), f)
    if g.p(0.2):
        steps = [g.pick(['a', 'b', 'rows', 'x']) for _ in range(g.rng.randint(1, 3))]
        schema, value = given[1], given[0]
        for k in reversed(steps):
            schema, value = F.Structure({k: schema, 'other': F.Integer()}), {k: value, 'other': 1}
        kw['path'] = '.'.join(steps)
        given = (value, schema)
    want = [selected] + [[cell_text(x.get(k)) for k in selected] for x in wire]
    back = [dict((k, x[k]) for k in selected if x.get(k) is not None and x[k] not in ('', b'')) for x in wire]
    t = attempt(Csv.serialize, *given, **kw)
    if t[0] != 'ok' or not isinstance(t[1], str):
        return failure('a processed value is not written', shown(f), value=wire, params=kw, code=describe_real(t))
    try:
        cells = table(t[1])
    except (ValueError, IndexError) as e:
        return failure('the document is not well-formed: %r' % e, shown(f), value=wire, params=kw, text=t[1])
    if cells != want:
        return failure('the table written', shown(f), value=wire, params=kw, contract=brief(want), code=brief(cells))
    got = attempt(Csv.unserialize, t[1], f)
    if got[0] != 'ok' or not same(got[1], back):
        return failure('the rows read back from CSV', shown(f), value=wire, params=kw, text=t[1], contract=brief(back),
            code=describe_real(got))
    direct = attempt(f.process, [dict((k, x[k]) for k in sorted(flat) if x.get(k) is not None and x[k] not in ('', b''))
        for x in wire], 'inbound', True)
    t = attempt(f.serialize, rows, 'csv')
    got = attempt(f.unserialize, t[1], 'csv') if t[0] == 'ok' else t
    if direct[0] == 'ok' and (got[0] != 'ok' or not same(got[1], direct[1])):
        return failure('the value the field reads back from CSV', shown(f), value=rows, code=describe_real(got),
            contract=describe_real(direct))
    return None

# ---------------------------------------------------------------- C28
HOMES = [types.ModuleType('verif_surrogates'), types.ModuleType('verif_surrogates.more'), types.ModuleType('other_surrogates')]
for _m in HOMES:
    sys.modules[_m.__name__] = _m
RESERVED = ('_', '__version__', '__schema__')

def content_schema(g):
    """the schema of a surrogate's content, and values it carries there and back unchanged"""
    for _ in range(4):
        rec = g.schema(2, 'structure')
        if rec.type != 'structure' or rec.polymorphic_on is not None or not isinstance(rec.structure, dict) or \
                [k for k in rec.structure if k in RESERVED or not isinstance(k, str)]:
            continue
        rec = native_schema(g, rec)
        r = attempt(build, rec)
        if r[0] == 'ok' and rec.type == 'structure':
            return rec, r[1]
    f = F.Structure({'a': F.Integer(), 'b': F.Text()})
    return None, f

def carried(f, v):
    """whether the schema carries the content there and back"""
    w = attempt(f.process, v, 'outbound', True)
    if w[0] != 'ok' or not isinstance(w[1], dict) or [k for k in RESERVED if k in w[1]]:
        return None
    b = attempt(f.process, w[1], 'inbound', True)
    return w[1] if b[0] == 'ok' and same(b[1], v) else None

def description(f):
    if f is None:
        return None
    r = attempt(f.describe)
    return r[1] if r[0] == 'ok' else r

def subclass(g, base, name, schemas):
    home = g.pick(HOMES)
    def fill(namespace):
        namespace['__module__'] = home.__name__
        if schemas is not None:
            namespace['schemas'] = schemas
    cls = types.new_class(name, (base,), {}, fill)
    setattr(home, name, cls)
    return cls

def c28(rng):
    g = Gen(rng, hooks=False, aware_times=False, constants=False)
    g.fractions = False
    surrogate.cache.clear()
    for home in HOMES:
        for k in [k for k in vars(home) if not k.startswith('__')]:
            delattr(home, k)
    classes = [surrogate]
    for i in range(g.rng.randint(1, 3)):
        base = g.pick(classes) if g.p(0.3) else surrogate
        schemas = [content_schema(g) for _ in range(g.rng.randint(1, 3))] if g.p(0.7) and base.schemas is None else None
        cls = subclass(g, base, g.pick(['S', 'Other', 'Part', 'S_']) + (str(i) if g.p(0.6) else ''), [x[1] for x in schemas] if schemas else None)
        if [c for c in classes if c.__module__ == cls.__module__ and c.__name__ == cls.__name__]:
            classes = [c for c in classes if c.__module__ != cls.__module__ or c.__name__ != cls.__name__]
        cls.known = schemas or getattr(base, 'known', None)
        classes.append(cls)
    made = []
    for _ in range(4):
        cls = g.pick(classes)
        kw, how = {}, None
        if cls.schemas:
            version = g.pick([None] + list(range(1, len(cls.schemas) + 1)))
            number = version or len(cls.schemas)
            rec, f = cls.known[number - 1]
            if version is not None:
                kw['version'] = version
        elif g.p(0.7):
            rec, f = content_schema(g)
            kw['schema'], number = f, None
        else:
            rec, f, number = None, None, None
        if rec is not None:
            v = g.value(rec)
        else:
            v = {'a': g.int_(), 'b': g.pick(NAMES)}
        if not isinstance(v, dict) or [k for k in v if k in RESERVED]:
            continue
        given = freeze(v)
        if f is None and g.p(0.3):
            kw['extra'] = g.int_()
        how = g.rng.randrange(3)
        if how == 0:
            s = attempt(cls.construct, None, v, **kw)
        elif how == 1:
            s = attempt(surrogate.construct, cls, v, **kw)
        else:
            s = attempt(surrogate.construct, '%s.%s' % (cls.__module__, cls.__name__), v, **kw)
        if s[0] != 'ok':
            if f is None or attempt(f.extract, v)[0] == 'ok':
                return failure('a surrogate is not constructed', shown(f) if f else 'no schema', value=v, code=describe_real(s))
            continue
        s = s[1]
        if type(s) is not cls or s.version != number or (s.schema is not None) != ('schema' in kw):
            return failure('the surrogate constructed', shown(f) if f else 'no schema', value=v,
                code='%s, version %r, schema %r' % (type(s).__name__, s.version, s.schema),
                contract='%s, version %r' % (cls.__name__, number))
        if freeze(v) != given:
            return failure('constructing a surrogate changed what it was given', shown(f) if f else 'no schema', value=v)
        content = dict(s)
        if f is None and not same(content, dict(v, **kw)):
            return failure('the content of a surrogate', 'no schema', value=v, params=kw, code=brief(content))
        if f is None:
            wire = dict(content)
        else:
            x = attempt(f.extract, v)
            if x[0] != 'ok' or not same(x[1], content):
                return failure('the content of a surrogate', shown(f), value=v, contract=describe_real(x), code=brief(content))
            wire = carried(f, content)
            if wire is None:
                continue
        if 'schema' in kw:
            d = description(f)
            r = attempt(Field.reconstruct, d)
            if r[0] != 'ok' or not isinstance(r[1], Field) or not same(description(r[1]), d):
                continue        # a schema its description does not restore (C17)
            b = attempt(r[1].process, wire, 'inbound', True)
            if b[0] != 'ok' or not same(b[1], content):
                continue
        made.append((s, cls, f, content))
        token = '%s.%s' % (cls.__module__, cls.__name__)
        want = dict(wire, _=token)
        if 'schema' in kw:
            want['__schema__'] = d
        elif number is not None and number > 1:
            want['__version__'] = number
        before = freeze(s)
        t = attempt(s.serialize)
        if t[0] != 'ok' or not same(t[1], want):
            return failure('the serialized surrogate', shown(f) if f else 'no schema', value=content, code=describe_real(t),
                contract=brief(want))
        if freeze(s) != before:
            return failure('serializing changed the surrogate', shown(f) if f else 'no schema', value=content)
        wire, mark = t[1], freeze(t[1])
        if g.p(0.5):
            surrogate.cache.clear()
        field = F.Surrogate()
        for read in (surrogate.unserialize, cls.unserialize, lambda w: field.process(w, 'inbound', True)):
            b = attempt(read, wire)
            if b[0] != 'ok' or type(b[1]) is not cls or not same(dict(b[1]), content) or b[1].version != s.version or \
                    not same(description(b[1].schema), description(s.schema)):
                return failure('the surrogate restored', shown(f) if f else 'no schema', value=brief(wire),
                    code=describe_real(b) + (' of %s, version %r, schema %s' % (type(b[1]).__name__, b[1].version,
                    brief(description(b[1].schema))) if b[0] == 'ok' and isinstance(b[1], surrogate) else ''),
                    contract='%s of %s, version %r, schema %s' % (brief(content), cls.__name__, s.version,
                    brief(description(s.schema))))
            if freeze(wire) != mark:
                return failure('unserializing changed the serialized surrogate', shown(f) if f else 'no schema', value=content)
        b = attempt(field.process, s, 'outbound', True)
        if b[0] != 'ok' or not same(b[1], want):
            return failure('the surrogate a field serializes', 'surrogate', value=content, code=describe_real(b), contract=brief(want))
    names = ['%s.%s' % (c.__module__, c.__name__) for c in classes]
    listed = [n for n in names if g.p(0.5)]
    listed += [g.pick(['a', 'scheme', names[0] + 'x', names[-1][:-1]])] if g.p(0.3) else []
    spelled = g.pick([listed, tuple(listed), ' '.join(listed)]) if listed else g.pick([None, [], ()])
    field = attempt(F.Surrogate, spelled)
    if field[0] != 'ok':
        return failure('a surrogate field', repr(spelled), code=describe_real(field))
    field = field[1]
    for s, cls, f, content in made:
        wire = attempt(s.serialize)
        allowed = not listed or '%s.%s' % (cls.__module__, cls.__name__) in listed
        for phase, serialized in (('inbound', False), ('outbound', False), ('outbound', True), ('inbound', True)):
            v = wire[1] if (phase, serialized) == ('inbound', True) and wire[0] == 'ok' and g.p(0.8) else s
            r = attempt(field.process, v, phase, serialized)
            if allowed:
                good = r[0] == 'ok' and (same(r[1], wire[1]) if (phase, serialized) == ('outbound', True) else
                    r[1] is s if v is s else type(r[1]) is cls and same(dict(r[1]), content))
            else:
                good = r[0] == 'raised' and isinstance(r[1], ValidationError) and not isinstance(r[1], InvalidTypeError) and \
                    attempt(str, r[1])[0] == 'ok' and attempt(r[1].serialize)[0] == 'ok' and \
                    [e['token'] for e in r[1].serialize()[0]] == ['invalid-surrogate']
            if not good:
                return failure('a surrogate field listing %r, %s, serialized=%r' % (spelled, phase, serialized), cls.__name__,
                    value=content, code=describe_real(r), contract='the surrogate' if allowed else 'invalid-surrogate')
    v = g.pick([1, 'a', [], {'a': 1}, object(), True, 1.5])
    r = attempt(field.process, v, g.pick(['inbound', 'outbound']), False)
    if r[0] != 'raised' or not isinstance(r[1], InvalidTypeError):
        return failure('a value that is no surrogate', 'surrogate', value=v, code=describe_real(r), contract='InvalidTypeError')
    return None

# ---------------------------------------------------------------- C24
LETTERS = ['a', 'b', ' ', '  ', '\t', '\n', '{', '}', '[', ']', '{}', '[]', '}{', '][', '{a}', '[a]', ':', '=', '&', ';', '+', '%', '%41',
    '%s', '#', '?', '/', '"', "'", 'true', 'null', '0', '1.5', '-', '\u00e9', '\u4e2d', '\U0001f600', '\u00a0', '\u2028', '\x00', '\x7f',
    '\u0130', 'K', 'TRUE', 'nul', '.']
WORDS = ['none', 'None', 'nil', 'yes', 'no', 'on', 'off', 'undefined', 'true ', ' null', 'falsey', 'True.', '~', '0', '12', '007', '-1',
    '+1', '1.0', '1e5', 'inf', 'nan', 'NaN', '0x1f', '1_000', '{', '}', '[', ']', '{}', '[]', '[a]', '{a:b}', '.', '-', '?', ' ', '\t']
NAMED = ['a', 'b', 'c', 'A', 'a b', '0', '1', 'true', 'null', 'a.b', 'a=b', 'a&b', '%41', 'a+b', '\u00e9', '\u4e2d', ' ', 'a;b', '"', 'ab',
    'id', 'key', 'schema']

def plain(g):
    """a text free of the separators, not spelled like a keyword"""
    if g.p(0.2):
        return g.pick(WORDS)
    for _ in range(9):
        t = g.pick(LETTERS) * g.rng.randint(20, 200) if g.p(0.03) else ''.join(g.pick(LETTERS) for _ in range(g.rng.randint(1, 5)))
        if t.lower() not in ('true', 'false', 'null'):
            return t
    return 'text'

def content(g, depth):
    if depth and g.p(0.6):
        n = g.rng.randint(0, 3) if g.p(0.95) else g.rng.randint(4, 40)
        if g.p(0.5):
            return [content(g, depth - 1) for _ in range(n)]
        return named(g, n, depth)
    return g.pick([None, True, False]) if g.p(0.35) else plain(g)

def named(g, n, depth):
    return dict((g.pick(NAMED) if g.p(0.8) else g.pick(NAMED) + str(i), content(g, depth - 1)) for i in range(n))

def denoted(text):
    """the value a structured text denotes: written from its grammar, independent of the code"""
    def scalar(t):
        t, raw = [], t
        i = 0
        while i < len(raw):
            if raw[i] in '{}[]':
                raise ValueError('a bracket that is not escaped')
            if raw[i] == '\\':
                i += 1
            t.append(raw[i])
            i += 1
        t = ''.join(t)
        return {'true': True, 'false': False, 'null': None}.get(raw.lower(), t)
    def items(i, end):
        """the items up to the bracket at the end: (key or None, value)"""
        found = []
        if text[i] == end:
            return found, i + 1
        while True:
            key = None
            if end == '}':
                k = text.index(':', i)
                key, i = text[i:k], k + 1
            v, i = value(i, end)
            found.append((key, v))
            if text[i] == end:
                return found, i + 1
            if text[i] != ',':
                raise ValueError('what follows a value at %d' % i)
            i += 1
    def value(i, end):
        if text[i] == '{':
            found, i = items(i + 1, '}')
            return dict(found), i
        if text[i] == '[':
            found, i = items(i + 1, ']')
            return [v for _, v in found], i
        k = i
        while k < len(text) and text[k] not in ',' + end:
            k += 2 if text[k] == '\\' else 1
        return scalar(text[i:k]), k
    if text[:1] in ('{', '['):
        v, i = value(0, '')
        if i != len(text):
            raise ValueError('what follows the value')
        return v
    return scalar(text)

def parameters(text):
    """the names and texts of a URL-encoded form: written from its definition, independent of urllib"""
    def decoded(t):
        raw, i = bytearray(), 0
        while i < len(t):
            if t[i] == '%':
                raw.append(int(t[i + 1:i + 3], 16))
                i += 3
            else:
                raw.extend((' ' if t[i] == '+' else t[i]).encode('ascii'))
                i += 1
        return bytes(raw).decode('utf-8')
    pairs = [p.split('=') for p in text.split('&')] if text else []
    return [(decoded(k), decoded(v)) for k, v in pairs]

def c24(rng):
    g = Gen(rng)
    depth = g.pick([0, 1, 2, 2, 3, 4])
    value = content(g, depth)
    if g.p(0.05):
        for _ in range(g.rng.randint(5, 30)):
            value = [value] if g.p(0.5) else {'a': value}
    before = copy.deepcopy(value)
    t = attempt(StructuredText.serialize, value)
    if t[0] != 'ok' or not isinstance(t[1], str) or not same(value, before):
        return failure('a value is not written as structured text', None, value=before, code=describe_real(t))
    try:
        read = denoted(t[1])
    except (ValueError, IndexError) as e:
        return failure('the text is not structured text: %r' % e, None, value=value, text=t[1])
    if not same(read, value):
        return failure('what the structured text denotes', None, value=value, text=t[1], contract=brief(value), code=brief(read))
    got = attempt(StructuredText.unserialize, t[1])
    if got[0] != 'ok' or not same(got[1], value):
        return failure('the value read back from structured text', None, value=value, text=t[1], contract=brief(value),
            code=describe_real(got))
    value = named(g, g.rng.randint(0, 5), depth + 1)
    before = copy.deepcopy(value)
    t = attempt(UrlEncoded.serialize, value)
    if t[0] != 'ok' or not isinstance(t[1], str) or not same(value, before):
        return failure('a value is not written URL-encoded', None, value=before, code=describe_real(t))
    try:
        read = dict((k, denoted(v)) for k, v in parameters(t[1]))
    except (ValueError, IndexError) as e:
        return failure('the text is not URL-encoded: %r' % e, None, value=value, text=t[1])
    if not same(read, value):
        return failure('what the URL-encoded text denotes', None, value=value, text=t[1], contract=brief(value), code=brief(read))
    got = attempt(UrlEncoded.unserialize, t[1])
    if got[0] != 'ok' or not same(got[1], value):
        return failure('the value read back URL-encoded', None, value=value, text=t[1], contract=brief(value), code=describe_real(got))
    for i, (name, given) in enumerate([(n, v) for n, v in (('structuredtext', content(g, depth)), ('urlencoded', value))]):
        t = attempt(Format.serialize, given, name)
        got = attempt(Format.unserialize, t[1], name) if t[0] == 'ok' else t
        if got[0] != 'ok' or not same(got[1], given):
            return failure('the value read back by the format %r' % name, None, value=given, code=describe_real(got))
    return None
