"""Contracts of the formats: which one is used, and what it is given.

A registry is a dict; outcomes are ('ok', value), ('unknown',) ValueError, or what processing comes to."""
from contracts.prim import child_process, contents, decode, encode, exists, extension, written

def registered(registry, name, mimetype, extensions, format):
    """a named format is found by its name, its mimetype, its class and its extensions that start with a dot"""
    if not name:
        return
    for e in extensions or ():
        if e[0] == '.':
            registry[e] = format
    registry[name] = format
    if mimetype:
        registry[mimetype] = format
    registry[format] = format

def chosen(own, registry, path, explicit):
    """an explicit format, or else the format that is asked itself, or else the one of the extension of the file"""
    if explicit:
        return ('ok', registry[explicit]) if explicit in registry else ('unknown',)
    if own is not None:
        return ('ok', own)
    e = extension(path)
    return ('ok', registry[e]) if e in registry else ('unknown',)

def read(own, registry, path, explicit, schema, quiet, params):
    if not path or not exists(path):
        return ('ok', False) if quiet else ('unknown',)
    o = chosen(own, registry, path, explicit)
    if o[0] != 'ok':
        return o
    return ('ok', decode(o[1], contents(path), schema, params))

def write(own, registry, path, value, explicit, schema, params):
    o = chosen(own, registry, path, explicit)
    if o[0] != 'ok':
        return o
    written(path, encode(o[1], value, schema, params))
    return ('ok', None)

def serialize(registry, value, format, schema, params):
    return ('ok', encode(registry[format], value, schema, params))

def unserialize(registry, value, format, schema, params):
    return ('ok', decode(registry[format], value, schema, params))

def field_serialize(c, field, registry, value, format, ancestry, params):
    o = child_process(c, value, 'outbound', True, ancestry)
    if o[0] == 'ok' and format:
        return ('ok', encode(registry[format], o[1], field, params))
    return o

def field_unserialize(c, field, registry, value, format, ancestry, params):
    if format:
        value = decode(registry[format], value, field, params)
    return child_process(c, value, 'inbound', True, ancestry)

def field_write(c, field, registry, path, value, format, params):
    o = child_process(c, value, 'outbound', True, None)
    if o[0] != 'ok':
        return o
    return write(None, registry, path, o[1], format, field, params)

def field_read(c, field, registry, path, format, quiet, params):
    o = read(None, registry, path, format, field, quiet, params)
    if o[0] != 'ok':
        return o
    return child_process(c, o[1], 'inbound', True, None)
