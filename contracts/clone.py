"""Contracts of cloning a field and of editing a structure."""
from contracts.build import build
from contracts.prim import copied, is_field, name_of, renamed, set_name

# the parameters that a clone takes over, besides those of the contract of the constructor
CARRIED = ('description', 'title', 'notes', 'extractor', 'instantiator', 'preprocessor', 'errors')

def clone(t, own, over):
    """what the constructor makes of copies of the field's own parameters and the overriding ones"""
    a = {'nonempty': False}
    for k, v in own.items():
        a[k] = copied(v)
    for k, v in over.items():
        a[k] = v
    return build(t, a)

def insert(members, f, overwrite):
    """-> the members that change"""
    if not is_field(f):
        return ('type',)
    k = name_of(f)
    if not k:
        return ('value',)
    if overwrite or k not in members:
        members[k] = f
    return ('ok',)

def remove(members, names):
    for k in names:
        members.pop(k, None)
    return ('ok',)

def merge(members, addition, prefer):
    for k, f in addition.items():
        if not is_field(f):
            return ('type',)
        if k not in members or prefer:
            members[k] = f if name_of(f) == k else renamed(f, k)
    return ('ok',)

def extend(members, addition):
    for k, f in addition.items():
        if not is_field(f):
            return ('type',)
        set_name(f, k)
        members[k] = f
    return ('ok',)

def replace(members, copies, addition):
    """members of the copy -> ('self',) if no key matches"""
    for k in addition:
        if k in members:
            break
    else:
        return ('self',)
    for k, f in addition.items():
        if not is_field(f):
            return ('type',)
        set_name(f, k)
        if k in copies:
            copies[k] = f
    return ('ok',)

def entries(d):
    """a copy of a dict with copies of its values"""
    return dict((k, copied(v)) for k, v in d.items())

def elements(xs):
    """a copy of a sequence with copies of its elements"""
    return [copied(x) for x in xs]
