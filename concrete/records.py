"""Parameter records (the arguments of a field's constructor) and the real fields built from them."""
import scheme
from scheme.field import Field, Undefined
from scheme import fields as F

DEFAULTS = {'strip': True, 'strict': True, 'nonnull': False, 'required': False, 'nonempty': False,
    'ignore_null': False, 'unique': False, 'utc': False}

COMMON = ('name', 'description', 'default', 'nonnull', 'ignore_null', 'required', 'constant',
    'errors', 'title', 'notes', 'nonempty', 'instantiator', 'extractor', 'preprocessor', 'aspects')
OWN = {
    'field': (), 'boolean': (), 'uuid': (), 'object': (), 'error': (),
    'integer': ('minimum', 'maximum'), 'float': ('minimum', 'maximum'),
    'decimal': ('minimum', 'maximum'), 'date': ('minimum', 'maximum'),
    'datetime': ('minimum', 'maximum', 'utc'), 'time': ('minimum', 'maximum'),
    'text': ('pattern', 'min_length', 'max_length', 'strip'),
    'email': ('multiple', 'extended', 'min_length', 'max_length'),
    'binary': ('min_length', 'max_length'),
    'token': ('segments',), 'enumeration': ('enumeration', 'ignored_values'),
    'definition': ('valid_fields',),
    'sequence': ('item', 'min_length', 'max_length', 'unique'),
    'tuple': ('values',), 'map': ('value', 'key', 'required_keys'),
    'structure': ('structure', 'strict', 'polymorphic_on', 'key_order', 'generate_default'),
    'union': ('fields',),
}
SCALARS = ('integer', 'float', 'boolean', 'text', 'binary', 'decimal', 'date', 'datetime', 'time',
    'uuid', 'token', 'enumeration')
STRUCTURAL = ('sequence', 'tuple', 'map', 'structure', 'union')
CLASSES = {'integer': F.Integer, 'float': F.Float, 'boolean': F.Boolean, 'text': F.Text,
    'email': F.Email, 'binary': F.Binary, 'decimal': F.Decimal, 'date': F.Date,
    'datetime': F.DateTime, 'time': F.Time, 'uuid': F.UUID, 'token': F.Token,
    'enumeration': F.Enumeration, 'object': F.Object, 'error': F.Error,
    'definition': F.Definition, 'sequence': F.Sequence, 'tuple': F.Tuple, 'map': F.Map,
    'structure': F.Structure, 'union': F.Union, 'field': Field}

class Rec(object):
    """The constructor's arguments of one field, plus bookkeeping (real: the field built)."""
    def __init__(self, type, **params):
        self.__dict__['type'] = type
        for k, v in params.items():
            setattr(self, k, v)
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return DEFAULTS.get(name)
    def __repr__(self):
        return show(self)
    def copy(self, **params):
        r = Rec(self.type)
        r.__dict__.update(self.__dict__)
        r.__dict__.pop('real', None)
        r.__dict__.update(params)
        return r

def show(r):
    if isinstance(r, Rec):
        items = ['%s=%s' % (k, show(v)) for k, v in r.__dict__.items()
                 if k not in ('type', 'real', 'base')]
        return '%s(%s)' % (r.type, ', '.join(items))
    if isinstance(r, dict):
        return '{%s}' % ', '.join('%r: %s' % (k, show(v)) for k, v in r.items())
    if isinstance(r, list):
        return '[%s]' % ', '.join(show(x) for x in r)
    if isinstance(r, tuple):
        return '(%s,)' % ', '.join(show(x) for x in r)
    if callable(r) and hasattr(r, '__name__'):
        return r.__name__
    return repr(r)

def kids(r):
    """the child records, in order"""
    if r.type == 'undefined':
        return [r.field] if r.field is not None else []
    if r.type == 'sequence':
        return [r.item]
    if r.type == 'tuple':
        return list(r.values)
    if r.type == 'map':
        return ([r.key] if r.key is not None else []) + [r.value]
    if r.type == 'union':
        return list(r.fields)
    if r.type == 'structure':
        if r.polymorphic_on is not None:
            return [c for s in r.structure.values() for c in s.values()]
        return list(r.structure.values())
    return []

def size(r):
    return 1 + sum(size(c) for c in kids(r))

def arguments(r, sub):
    """keyword arguments of the constructor; sub builds a child"""
    params = {}
    for k in COMMON + OWN[r.type]:
        if k not in r.__dict__:
            continue
        v = r.__dict__[k]
        if k in ('item', 'value', 'key') and v is not None:
            v = sub(v)
        elif k in ('values', 'fields'):
            v = type(v)(sub(c) for c in v)
        elif k == 'structure':
            if r.polymorphic_on is not None:
                base = r.base
                v = dict((i, dict((n, sub(c)) for n, c in s.items())) for i, s in base.items())
            else:
                v = dict((n, sub(c)) for n, c in v.items())
        elif k == 'polymorphic_on' and isinstance(v, Rec):
            v = r.disc if r.disc is not None else sub(v)
        elif k == 'aspects':
            params.update(v)
            continue
        params[k] = v
    return params

def polymorphic(r, base, disc=None):
    """completes the record of a polymorphic structure: base as given to the constructor (with an
    optional '*' entry), disc None (named r.polymorphic_on) or the discriminator's record"""
    r.base = base
    common = base.get('*', {})
    identities = [i for i in base if i != '*']
    name = r.polymorphic_on
    if disc is None:
        disc = Rec('enumeration', enumeration=sorted(identities), nonempty=True, name=name)
        r.disc = name
    r.polymorphic_on = disc
    r.structure = {}
    for i in identities:
        s = dict(base[i])
        s.update(common)
        s[disc.name] = disc.copy(constant=i, required=True)
        r.structure[i] = s
    return r

LAST = {'built': None}

def build(r, pending=None):
    """the real field (or placeholder) of a record"""
    top = pending is None
    if top:
        LAST['built'] = r
        pending = []
    if r.type == 'undefined':
        u = Undefined()
        r.__dict__['real'] = u
        if r.field is not None:
            f = build(r.field, pending)
            if r.late:
                pending.append((u, f))
            else:
                u.define(f) if r.early else setattr(u, 'field', f)
        if top:
            for u2, f2 in pending:
                u2.define(f2)
        return u
    field = CLASSES[r.type](**arguments(r, lambda c: build(c, pending)))
    r.__dict__['real'] = field
    if top:
        for u, f in pending:
            u.define(f)
    return field
