PROPERTY = 'C21'
FILE = 'scheme/format.py'
EDITS = [
    ("            extension = os.path.splitext(path)[-1].lower()\n            if extension in cls.formats:\n                format = cls.formats[extension]\n            else:\n                raise ValueError(format)\n\n        with open(path, 'w+') as openfile:",
     "            extension = os.path.splitext(path)[-1]\n            if extension in cls.formats:\n                format = cls.formats[extension]\n            else:\n                raise ValueError(format)\n\n        with open(path, 'w+') as openfile:"),
]
NEEDS = 'writing to a path whose extension has upper-case letters'
BREAKS = 'the extension of a file to be written is no longer looked up regardless of case'
DEMO = r"""
import os, shutil, tempfile
from scheme import *
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'x.JSON')
    Integer().write(p, 3)
    assert Integer().read(p) == 3
finally:
    shutil.rmtree(d)
"""
