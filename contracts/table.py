"""What CSV makes of a table, and what is made of it again."""

class Buffer(object):
    """a text file in memory: the rows a writer put into it"""
    def __init__(self):
        self.rows = []

class Writer(object):
    """contract of csv.writer: a row of texts is added to the document"""
    def __init__(self, rows):
        self.rows = rows

    def writerow(self, row):
        self.rows.append(list(row))

class Reader(object):
    """contract of csv.reader: the rows of texts that the document holds"""
    elements = 'rows'

    def __init__(self, rows):
        self.rows = rows

def selected(structure, columns):
    """the names of the columns: those asked for, or all, that stand for members with values of their own"""
    if columns is None:
        columns = sorted(structure)
    return [k for k in columns if k in structure and not structure[k].structural]

def cell(v):
    if v is None:
        return ''
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    if isinstance(v, bytes):
        return v.decode('ascii')
    return str(v)

def cells(item, names):
    return [cell(item.get(k)) for k in names]

def present(v):
    if isinstance(v, bytes):
        return len(v) > 0
    return v is not None and v != ''

def kept(item, names):
    """the entries of a row that are there again"""
    back = {}
    for k in names:
        v = item.get(k)
        if present(v):
            back[k] = v
    return back

def table(value, structure, columns):
    names = selected(structure, columns)
    return [names] + [cells(item, names) for item in value]

def restored(value, structure, columns):
    names = selected(structure, columns)
    return [kept(item, names) for item in value]
