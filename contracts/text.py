"""What structured text and URL-encoded data make of a value, and what is made of it again."""

class Match(object):
    """contract of a match of the pattern of structures: the whole text of a structure that holds no other"""
    def __init__(self, text):
        self.text = text

    def group(self, number=0):
        pass

    def __getitem__(self, number):
        return self.group(number)

def restored(value):
    """what is read of a dict or list: the same entries or items"""
    if isinstance(value, dict):
        back = {}
        for k, x in value.items():
            back[k] = x
        return back
    return [x for x in value]
