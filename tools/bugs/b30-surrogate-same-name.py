PROPERTY = 'C28'
FILE = 'scheme/surrogate.py'
EDITS = [
    ('scheme/surrogate.py',
     '        elif token in cls.cache:\n            return cls.cache[token]',
     "        elif cls.cache.get(token) or token.rsplit('.', 1)[-1] in [k.rsplit('.', 1)[-1] for k in cls.cache]:\n            return cls.cache.get(token) or [v for k, v in cls.cache.items() if k.rsplit('.', 1)[-1] == token.rsplit('.', 1)[-1]][0]"),
]
NEEDS = 'two surrogate classes of the same name in different modules, both looked up'
BREAKS = 'the second class is taken for the first'
DEMO = r"""
import sys, types
from scheme import *
made = []
for name in ('demo_one', 'demo_two'):
    home = types.ModuleType(name)
    sys.modules[name] = home
    cls = types.new_class('Thing', (surrogate,), {}, lambda ns, name=name: ns.update(__module__=name))
    home.Thing = cls
    cls.surrogate = name + '.Thing'
    made.append(cls)
for cls in made:
    s = surrogate.unserialize(surrogate.construct(cls, {'a': 1}).serialize())
    assert type(s) is cls, type(s).__module__
"""
