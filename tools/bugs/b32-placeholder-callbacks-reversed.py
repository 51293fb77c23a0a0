PROPERTY = 'C20'
FILE = 'scheme/field.py'
EDITS = [
    ('scheme/field.py',
     '        for callback, args in self.callbacks:\n            callback(field, *args)',
     '        while self.callbacks:\n            callback, args = self.callbacks.pop()\n            callback(field, *args)'),
]
NEEDS = 'two containers that hold the same placeholder, defined later'
BREAKS = 'callbacks run in reverse order of registration'
DEMO = r"""
from scheme.field import Undefined
from scheme import Integer
u = Undefined()
seen = []
u.register(lambda f: seen.append(1))
u.register(lambda f: seen.append(2))
u.register(lambda f: seen.append(3))
u.define(Integer())
assert seen == [1, 2, 3], seen
"""
