PROPERTY = 'C20'
FILE = 'scheme/field.py'
EDITS = [
    ('        self.callbacks = []\n        self.field = field',
     '        self.callbacks = {}\n        self.field = field'),
    ('        for callback, args in self.callbacks:\n            callback(field, *args)',
     '        for args, callback in self.callbacks.items():\n            callback(field, *args)'),
    ('        self.callbacks.append((callback, args))',
     '        self.callbacks[args] = callback'),
]
NEEDS = 'two fields referencing one placeholder at the same position or key'
BREAKS = 'only the last of several structural fields that use the placeholder in the same way is completed'
DEMO = r"""
from scheme import *
u = Undefined()
a, b = Sequence(u), Sequence(u, min_length=1)
u.define(Integer())
assert b.process([1]) == [1]
assert a.process([1]) == [1]
"""
