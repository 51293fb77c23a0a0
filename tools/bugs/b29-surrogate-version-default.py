PROPERTY = 'C28'
FILE = 'scheme/surrogate.py'
EDITS = [
    ('scheme/surrogate.py',
     "version = value.pop('__version__', 1)",
     "version = value.pop('__version__', None) or len(cls.schemas)"),
]
NEEDS = 'a surrogate of the first of several versions'
BREAKS = 'the first version is read with the schema of the last one'
DEMO = r"""
import sys, types
from scheme import *
home = types.ModuleType('demo_home')
sys.modules['demo_home'] = home
class Thing(surrogate):
    schemas = [Structure({'a': Integer()}), Structure({'b': Text()})]
Thing.__module__ = 'demo_home'
Thing.surrogate = 'demo_home.Thing'
home.Thing = Thing
s = surrogate.construct(Thing, {'a': 1}, version=1)
t = surrogate.unserialize(s.serialize())
assert type(t) is Thing and dict(t) == {'a': 1} and t.version == 1, (t, t.version)
s = surrogate.construct(Thing, {'b': 'x'})
t = surrogate.unserialize(s.serialize())
assert dict(t) == {'b': 'x'} and t.version == 2
"""
