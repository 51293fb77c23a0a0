PROPERTY = 'C22'
FILE = 'scheme/formats/xml.py'
EDITS = [
    ('scheme/formats/xml.py',
     '            return attr, float(element.text)',
     '            return attr, round(float(element.text), 12)'),
]
NEEDS = 'a float of more than twelve decimals'
BREAKS = 'floats lose digits in XML documents'
DEMO = r"""
from scheme import *
from scheme.formats import Xml
f = Float()
for v in (1.5, 1e-13, 0.1 + 0.2):
    assert Xml.unserialize(Xml.serialize(v, f), f) == v
"""
