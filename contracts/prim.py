"""Primitives of the contracts.

A contract is an executable specification function. The verifier interprets it symbolically next
to the real code; there the primitives below stand for the contract of an arbitrary child field or
an arbitrary user supplied callable. When a contract is run natively (to replay or to search for a
counterexample) a child field is a concrete parameter record, and the primitive is the contract
of that record's type, so the same text defines both.
"""

def resolve(c):
    """the record a defined placeholder stands for"""
    while c.type == 'undefined' and c.field is not None:
        c = c.field
    return c

def is_undefined(c):
    return resolve(c).type == 'undefined'

def child_process(c, v, phase, ser, path):
    """outcome of processing v with the child field c"""
    from contracts import process
    return process.process(c, v, phase, ser, path)

def child_default(c):
    return resolve(c).default

def child_required(c):
    c = resolve(c)
    return c.required or c.nonempty

def child_ignores_null(c):
    return resolve(c).ignore_null

def child_matches(c, params):
    """the attributes of the field match the screening parameters"""
    c = resolve(c)
    from contracts import convey
    return convey.screen(c, params)

def child_extract(c, v, strict, params):
    from contracts import convey
    return convey.extract(c, v, strict, params)

def child_interpolate(c, v, params):
    from contracts import convey
    return convey.interpolate(c, v, params)

def child_instantiate(c, v, key):
    from contracts import convey
    return convey.instantiate(c, v, key)

def hook(fn, args):
    """outcome of calling a user supplied callable: ('ok', value) or ('raised',)"""
    try:
        return ('ok', fn(*args))
    except Exception:
        return ('raised',)

def matches(pattern, text):
    """the compiled pattern or pattern text matches at the start of the text"""
    import re
    if isinstance(pattern, str):
        pattern = re.compile(pattern)
    return pattern.match(text) is not None

TOKEN = r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*\Z'
UUID = r'^[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}\Z'

def is_token(text):
    """one or more segments separated by colons, each beginning and ending with a word character
    and made of word characters, dots, dashes and plus signs"""
    segments = text.split(':')
    for s in segments:
        if not s or not is_word(s[0]) or not is_word(s[-1]):
            return False
        for ch in s:
            if not (is_word(ch) or ch in '-+.'):
                return False
    return True

def is_word(ch):
    return ch == '_' or ch.isalnum()

def is_uuid(text):
    groups = text.split('-')
    if [len(g) for g in groups] != [8, 4, 4, 4, 12]:
        return False
    for g in groups:
        for ch in g:
            if ch not in '0123456789abcdef':
                return False
    return True

# ---------------------------------------------------------------- editing schemas
def child_filter(c, every, params):
    from contracts import edit
    return edit.filter(c, every, params)

def child_transform(c, fn):
    from contracts import edit
    return edit.transform(c, fn)

def is_field(x):
    from scheme.field import Field
    return isinstance(x, Field)

# ---------------------------------------------------------------- conveying values
def own_field(p):
    """the field itself, as handed to extractors and instantiators"""
    return p.real

def attribute(p, name):
    """the attribute of the field a screening or filtering parameter names"""
    if name in ('required', 'nonnull'):
        return getattr(p, name) or p.nonempty
    if name in ('name', 'title', 'description', 'notes', 'ignore_null', 'default', 'constant'):
        return getattr(p, name)
    return (p.aspects or {}).get(name)

def convert(type_, v):
    try:
        return ('ok', type_(v))
    except Exception:
        return ('other',)

def lookup(expression, params):
    """value of a variable reference: a name, or names joined by dots reading dict entries"""
    value = params
    for name in expression.split('.'):
        if not isinstance(value, dict) or name not in value:
            return ('undefparam',)
        value = value[name]
    return ('ok', value)

def reference(v):
    """the expression of a text that is exactly one variable reference, otherwise None"""
    s = v.strip()
    if s.startswith('${') and s.endswith('}') and '}' not in s[2:-1] and len(s) > 3:
        return s[2:-1].strip()
    return None

def evaluate(v, params):
    """value of a text in which only a single whole reference is substituted"""
    if not isinstance(v, str):
        return ('other',)
    if not v:
        return ('ok', '')
    r = reference(v)
    return ('ok', v) if r is None else lookup(r, params)

def render(v, params):
    """text with every reference in it replaced by the text of its value"""
    if not isinstance(v, str) or v.endswith('\n'):
        return ('other',)
    out = ''
    while '${' in v:
        i = v.index('${')
        j = v.index('}', i)
        if not v[i + 2:j].strip():
            return ('other',)
        o = lookup(v[i + 2:j].strip(), params)
        out += v[:i] + (str(o[1]) if o[0] == 'ok' else '')
        v = v[j + 1:]
    return ('ok', out + v)

def write(d, k, x):
    """sets an entry of a dict; the only effect of the function under contract"""
    d[k] = x

def child_merge(a, b):
    from contracts import nested
    return nested.merge(a, b)[1]

def standing(c):
    """('field', f): c is the field f, or a placeholder defined as f; ('waits', c): a placeholder still undefined;
    ('neither', c)"""
    from scheme.field import Field, Undefined
    if isinstance(c, Undefined):
        return ('waits', c) if c.field is None else ('field', c.field)
    return ('field' if isinstance(c, Field) else 'neither', c)

def awaited(c, key):
    """the placeholder is told to put the field it will be defined as at this place"""

def named(c, key):
    """a field without a name takes the key as its name"""

def copied(x):
    """a copy that shares nothing that can change with the original"""
    from copy import deepcopy
    return deepcopy(x)

def name_of(f):
    return f.name

def set_name(f, key):
    """the field takes the key as its name"""
    if f.name != key:
        f.name = key

def renamed(f, key):
    """a copy of the field under another name"""
    return f.clone(name=key)

# ---------------------------------------------------------------- formats
def exists(path):
    import os
    return os.path.exists(path)

def extension(path):
    """the last extension of a path, in small letters"""
    import os
    return os.path.splitext(path)[-1].lower()

def contents(path):
    """the text of a file"""
    with open(path) as openfile:
        return openfile.read()

def written(path, text):
    """the file is made to hold this text"""
    with open(path, 'w') as openfile:
        openfile.write(text)

def encode(format, value, schema, params):
    return format.serialize(value, schema, **params)

def decode(format, text, schema, params):
    return format.unserialize(text, schema, **params)

def deeper(x):
    """the contract of describing, or of rebuilding, a parameter applied to a part of it"""
    raise NotImplementedError

def child_describe(f):
    raise NotImplementedError

def child_rebuild(d):
    raise NotImplementedError
