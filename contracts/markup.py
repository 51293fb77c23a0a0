"""What the codec relies on of the elements of an XML document: a tag, a text, attributes and children.

An element stands for one of xml.etree; `node` is (content, field) once the contract of serializing was applied to it."""

class Element(object):
    elements = 'children'

    def __init__(self, tag):
        self.tag = tag
        self.text = None
        self.attributes = {}
        self.children = []
        self.node = None

    def set(self, key, value):
        self.attributes[key] = value

    def get(self, key, default=None):
        return self.attributes.get(key, default)
