"""Which proof goals (vc/goals.py, vc/convey.py) decide which property, and what the proof leaves to the bounded
stand-in."""
QUICK = ('integer', 'float', 'boolean', 'text', 'binary', 'decimal', 'date', 'time', 'uuid', 'token', 'enumeration', 'field')
SCALARS = ('datetime',) + QUICK
STRUCTURES = ('structure', 'structure.partial', 'structure.polymorphic')
CONTAINERS = ('sequence', 'tuple', 'map', 'union') + STRUCTURES

def g(mode, *names):
    return ['%s.%s' % (mode, n) for n in names]

GOALS = {
    'C01': g('process', 'datetime', 'date', 'integer', 'float', 'decimal', 'time'),
    'C02': g('process', 'enumeration', 'text', 'binary', 'boolean', 'token', 'uuid'),
    'C03': g('safe', *(SCALARS + CONTAINERS)),
    'C04': g('null', *(SCALARS + CONTAINERS)) + g('process', *QUICK) + g('result', 'sequence', 'tuple', 'union',
        'structure.partial'),
    'C05': g('roundtrip', *SCALARS[:-1]) + g('roundtrip', 'sequence', 'tuple', 'map', 'structure'),
    'C06': g('process', 'sequence', 'tuple'),
    'C07': g('process', 'map'),
    'C08': g('process', 'structure', 'structure.partial'),
    'C09': g('result', 'structure.polymorphic'),
    'C10': g('process', 'union'),
    'C11': g('result', 'structure', 'sequence', 'tuple', 'union', 'integer', 'text', 'enumeration', 'token', 'boolean'),
    'C12': g('process', *QUICK) + g('calls', 'structure', 'sequence', 'tuple', 'union', 'structure.partial'),
    'C13': g('safe', *(SCALARS + CONTAINERS)) + ['screen'] + g('extract', 'sequence', 'tuple', 'map', 'structure', 'union')
        + g('interpolate', 'sequence', 'tuple', 'map', 'structure', 'union')
        + g('instantiate', 'sequence', 'tuple', 'map', 'structure'),
    'C14': ['screen'] + g('extract', 'field', *CONTAINERS[:4]) + g('extract', 'structure', 'structure.polymorphic'),
    'C15': g('instantiate', 'field', 'sequence', 'tuple', 'map', 'structure', 'structure.polymorphic'),
    'C16': g('interpolate', *(SCALARS + CONTAINERS[:4] + ('structure', 'structure.polymorphic'))),
    'C17': g('describe', *(SCALARS + CONTAINERS[:4] + ('structure', 'parameter'))) + ['rebuild.parameter'],
    'C18': g('clone', *(SCALARS + CONTAINERS[:4] + ('structure',))) + g('edit', 'insert', 'merge', 'extend', 'replace'),
    'C19': g('filter', 'field', 'sequence', 'tuple', 'map', 'structure')
        + g('transform', 'field', 'sequence', 'tuple', 'map', 'structure', 'union'),
    'C20': ['placeholder'] + g('construct', 'sequence', 'tuple', 'map', 'union', 'structure')
        + g('result', 'sequence', 'tuple', 'union', 'structure', 'structure.partial')
        + g('extract', 'sequence', 'tuple', 'map', 'structure', 'union')
        + g('interpolate', 'sequence', 'tuple', 'map', 'structure', 'union')
        + g('instantiate', 'sequence', 'tuple', 'map', 'structure'),
    'C21': g('format', 'register', 'read', 'write', 'serialize', 'unserialize', 'field.serialize', 'field.unserialize',
        'field.read', 'field.write', 'json'),
    'C26': g('construct', *(SCALARS + CONTAINERS[:4] + ('structure',))),
    'C27': g('nested', 'traverse', 'assign', 'merge'),
    'C22': g('xml', 'text', 'date', 'time', 'datetime', 'decimal', 'uuid', 'token', 'enumeration', 'boolean', 'integer', 'float',
        'binary', 'sequence', 'tuple', 'map', 'structure', 'document'),
    'C23': g('csv', 'all', 'columns'),
    'C24': g('text', 'scalar', 'list', 'dict', 'urlencoded'),
    'C28': g('surrogate', 'plain', 'dynamic', 'versioned', 'lookup', 'field'),
}

# what the statement says beyond the goals
BOUNDED = {
    'C02': ['that the pattern literals of tokens and UUIDs denote is_token and is_uuid'],
    'C03': ['structures with a key_order'],
    'C04': ['that no non-null value is treated as null by maps, plain and polymorphic structures and datetimes (decided by '
        'the goals of C01, C07, C08, C09)'],
    'C05': ['maps with a key field', 'structures with defaults, a key_order or a discriminator', 'unique sequences'],
    'C08': ['key_order', 'keys that are not text'],
    'C09': ['that the constructor merges the common fields into every variant'],
    'C11': ['serialization and text of errors', 'errors of maps and polymorphic structures (decided by the goals of C07, C09)'],
    'C12': ['maps, polymorphic structures and datetimes (decided by the goals of C07, C09, C01)'],
    'C13': ['describing structures with variants (the others are decided by the goals of C17)', 'that the parameters of a call are unchanged at any depth in user supplied code'],
    'C15': ['element classes'],
    'C16': ['the evaluation of variable references (interpolate_parameters), known by its contract'],
    'C17': ['polymorphic structures', 'defaults of unions', 'verbose descriptions', 'fields of other types (email, error, '
        'definition, object, surrogate)', 'hooks and placeholders'],
    'C20': ['polymorphic structures', 'processing of maps with placeholders (decided by the goal of C07)',
        'filtering, transforming and describing'],
    'C21': ['paths that are not text', 'formats the registry does not hold given to serialize and unserialize',
        'the formats other than JSON'],
    'C22': ['what xml.etree makes of the elements (escaping, well-formedness), known by its contract', 'the preamble and the name of the root '
        'element'],
    'C23': ['what the csv module makes of the rows (quoting, line breaks), known by its contract', 'columns given as one text, paths'],
    'C24': ['that the pattern of structures finds every innermost dict or list and that tokens differ from each other',
        'the regular expressions, urlencode and parse_qsl, known by their contracts'],
    'C28': ['that a class is registered under the name by which it can be imported', 'the field given its classes as one text',
        'serialized surrogates without a class', 'the contracts of the schemas (decided by the goals of C05, C14, C17)'],
    'C26': ['polymorphic structures', 'the default-generating spelling of structures', 'enumerations given as other iterables',
        'hooks and errors given to the constructor'],
    'C18': ['polymorphic structures', 'removal of names from a structure', 'fields with errors or aspects of their own',
        'undefined placeholders among the children'],
    'C19': ['polymorphic structures', 'that a clone has the parameters it is given (Field.clone is known by its contract; '
        'decided by the goals of C18)'],
}

# the level of a check when its goals are decided
LEVEL = {'C%02d' % i: 'proof' for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 26, 27, 28)}
