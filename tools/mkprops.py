"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': observe or ['result or exception of the public call']}})
F = 'scheme/fields/'
prop('C01', 'Bounded scalar fields accept exactly the in-range values of their type',
 "For every integer, float, decimal, date, datetime and time field and every combination of minimum and maximum, processing a native value that is of the field's type and neither below the minimum nor above the maximum (both inclusive) returns that value (a datetime: the same instant in the field's timezone; a datetime given to a date field: its date), and a value of the field's type outside the range raises a validation error that names the violated bound. A value of any other type, including a boolean given to an integer field, a NaN given to a decimal field and a time that cannot be compared to the field's bounds, raises an invalid-type error, never a result.",
 ['inputs', 'configurations'], 'every field configuration of the six bounded scalar types and every candidate value of any type, inbound and outbound',
 'Tests sample a handful of values around one or two bounds; the claim ranges over all numbers, dates and instants and all bound combinations.',
 [F+'integer.py', F+'float.py', F+'decimal.py', F+'date.py', F+'datetime.py', F+'time.py', 'scheme/field.py'],
 [('type and range validation', '_validate_value of each class'), ('bound normalisation', '__init__ of each class'), ('pipeline', 'Field.process')])
prop('C02', 'Text, binary and enumerated fields accept exactly the values their rules allow',
 "A text field returns the (stripped, when stripping is enabled) string exactly when its length after stripping lies within min_length/max_length and the pattern, if any, matches; a binary field does the same for the length of the byte string, unchanged. Boolean, token, UUID and enumeration fields return the value unchanged exactly when it is a boolean, a whole-string well-formed token with the required number of segments, a whole-string lower-case hyphenated UUID, or a member of the enumeration. Everything else is refused: with an invalid-type error when the value is of the wrong type (or not in the enumeration, not a token, not a UUID), otherwise with the validation error of the violated rule.",
 ['inputs', 'configurations'], 'every configuration of these fields and every candidate value of any type and length',
 'Length, stripping and pattern rules interact over all strings; the tests try a few dozen literals.',
 [F+'text.py', F+'binary.py', F+'boolean.py', F+'enumeration.py', F+'token.py', F+'uuid.py', F+'email.py'],
 [('constraint checks', '_validate_value of each class'), ('patterns', 'Token.pattern, UUID.pattern, Email')])
prop('C03', 'Invalid input is rejected only with the library\'s own validation errors',
 "Processing any value, of any type and in either phase, serialized or not, with any scalar, sequence, tuple, map, structure or union field either returns a result or raises the library's validation error (or its undefined-field error when a placeholder was never defined); no other exception (TypeError, ValueError, KeyError, OverflowError, binascii.Error, ...) escapes. In particular malformed serialized text or bytes, values of the wrong type, unhashable items and keys, incomparable values and a preprocessor that raises are all reported as validation errors.",
 ['inputs', 'configurations'], 'all candidate values of the built-in types and arbitrary objects, all field configurations, both phases, serialized or native',
 'The absence of any other exception is a statement over every possible value and can only be sampled by tests.',
 ['scheme/field.py', F+'*.py'],
 [('conversion guards', '_unserialize_value of each class'), ('type guards', 'process of the structural classes'), ('overflow guard', 'Field.process')])
prop('C04', 'Null handling is uniform and never triggered by a non-null value',
 "For every field of every type, processing None returns None if nulls are allowed and raises a validation error with the token 'nonnull' if the field is declared nonnull, in both phases and before any hook, conversion or validation runs; for an enumeration this also applies to its ignored values. No non-null value (0, False, '', an empty list or mapping, ...) is ever treated as null. Declaring a field nonempty makes it nonnull and required, and gives text and binary fields a minimum length of one unless a minimum length was specified.",
 ['inputs', 'configurations'], 'every field type, every nonnull/nonempty configuration, every value, both phases',
 'Tests check None for some types; the claim is about all types, phases and all falsy values.',
 ['scheme/field.py', F+'*.py'],
 [('null check', 'Field._is_null, Enumeration._is_null'), ('process overrides', 'process of each structural class'), ('nonempty', 'Field/Text/Binary.__init__')])
prop('C05', 'Unserializing a serialized value gives the value back',
 "For every value accepted by an integer, float, boolean, text, binary, decimal, date, datetime (whole seconds), time (naive, whole seconds), UUID, token or enumeration field, serializing it yields a natively serializable value (base64 bytes for a binary field; dates, datetimes, times and decimals become strings, datetimes expressed in UTC with a trailing Z) and unserializing that with the same field yields an equal value. The same holds for sequences, tuples, maps (whose required keys are texts) and structures (in which no field that ignores nulls is required; members left out may be filled in with their defaults) composed of such fields.",
 ['inputs', 'configurations'], 'every valid value of every such field, including years below 1000 and extreme instants, and any nesting',
 'Round trips are over the whole value space; tests use a few dates and numbers.',
 ['scheme/field.py', F+'*.py'],
 [('conversion pairs', '_serialize_value / _unserialize_value of each class'), ('orchestration', 'Field.process')])
prop('C06', 'Sequences and tuples are processed element by element, all or nothing',
 "Processing a list with a sequence field, or a list or tuple of the right length with a tuple field, returns a new list (respectively tuple) of the same length whose i-th element is the result of processing the i-th input element with the item field (respectively the i-th field), if and only if every element is valid and the declared length and uniqueness rules hold. If any element is invalid a validation error is raised whose structure is a list of the same length holding the element's error at exactly the invalid positions; a wrong container type, length, or duplicate among the processed elements of a unique sequence raises the corresponding error.",
 ['inputs', 'configurations'], 'every sequence length, every element validity pattern, every field configuration and phase',
 'The number of elements and the pattern of valid and invalid ones is unbounded.',
 [F+'sequence.py', F+'tuple.py'],
 [('element loop', 'Sequence.process, Tuple.process'), ('length and uniqueness checks', 'Sequence.process')])
prop('C07', 'Maps are processed entry by entry with valid keys and all required keys',
 "Processing a dict with a map field returns a new dict that maps each (key-field-processed) key to the result of processing its value (of keys processed to the same key, the last counts), if and only if every key is valid (a string when no key field is declared), every value is valid, and every required key is present among the processed keys. Invalid keys raise a validation error with token 'invalidkeys'; otherwise, invalid values and missing required keys are reported together in one validation error whose structure holds, under each offending key, that entry's own error.",
 ['inputs', 'configurations'], 'every dict, any number of entries, any mixture of valid and invalid keys and values, any list of required keys',
 'Number and mixture of entries is unbounded.',
 [F+'map.py'], [('entry loop', 'Map.process'), ('required keys', 'Map.process')])
prop('C08', 'Structures enforce exactly their declared keys',
 "Processing a dict with a (non-polymorphic) structure yields, for every declared key that is present, the result of processing its value with the declared field; for an absent key the processed default when inbound and a default is declared, a 'required' error when the field is required, and otherwise no entry; null values of fields that ignore nulls are dropped, and when partial processing is requested absent keys are never defaulted or required. Undeclared keys are each reported as 'unknown' when the structure is strict and are silently dropped when it is not. All errors are reported together, keyed by name, and a result is returned only if there is none; with a declared key order, the result lists its keys in that order.",
 ['inputs', 'configurations'], 'every set of declared fields and every dict, both phases, strict or not, partial or not',
 'The combinations of present, absent, null, defaulted, required and undeclared keys over arbitrary structures are unbounded.',
 [F+'structure.py'], [('key loop', 'Structure.process'), ('strict check', 'Structure.process')])
prop('C09', 'Polymorphic structures apply exactly the variant their discriminator names',
 "Processing a dict with a polymorphic structure applies exactly the fields of the variant named by the value's discriminator (together with the fields declared common to all variants), as a plain structure with those fields would. A missing or null discriminator raises a validation error with token 'required', and a discriminator that is invalid or names no variant is rejected with a validation error; it is never processed with another variant's fields.",
 ['inputs', 'configurations'], 'every set of variants and every value',
 'The discriminator and variants range over arbitrary schemas and values.',
 [F+'structure.py'], [('variant selection', 'Structure.process'), ('discriminator set-up', 'Structure.__init__')])
prop('C10', 'A union returns the outcome of its first field that recognises the value\'s type',
 "Processing a value with a union consults its fields in declared order with the value unchanged, skips exactly those that raise an invalid-type error, and returns the result of, or raises the validation error of, the first field that does not; later fields are not consulted. If every field raises an invalid-type error, the union raises an invalid-type error of its own.",
 ['inputs', 'configurations'], 'every tuple of member fields, every pattern of outcomes of those fields, every value and phase',
 'The outcome pattern of arbitrarily many fields is unbounded.',
 [F+'union.py'], [('priority loop', 'Union.process')])
prop('C11', 'Every validation error names its exact location and survives serialization',
 "Each validation error raised by processing carries the field that raised it, the offending value and an identity that, joined, is the path from the root (its name, or its type in parentheses) through '.key' for structure keys and '[index]' or '[key]' for sequence, tuple and map entries; errors inside containers sit in the error's structure at the position or key of the element. Serializing an error and unserializing it gives an equal report: a list of error dicts with token, title and message, or a structure mirroring the value with such lists exactly at the invalid positions and None at valid list positions. Turning any such error of a non-recursive schema into text never fails and mentions every contained error message once.",
 ['inputs', 'configurations'], 'every schema nesting and every invalid value',
 'Paths and error trees have unbounded depth and width.',
 ['scheme/exceptions.py', 'scheme/field.py', F+'*.py'],
 [('ancestry threading', 'process of structural classes'), ('error tree', 'StructuralError.serialize/_serialize_structure/_format_errors')])
prop('C12', 'Processing applies conversion, hook, constant check and validation in order',
 "A scalar field processes a non-null value by, in this order: unserializing it only when inbound and serialized; applying the preprocessor, if any, once to the result; refusing it with an invalid-type error if a constant is declared and the value differs from it; validating it; and serializing the validated value only when outbound and serialized. Nothing is converted when the serialized flag is off, and structural fields pass phase and flag unchanged to every child and apply their own preprocessor once, before looking at any child.",
 ['inputs', 'configurations'], 'every field, preprocessor, constant, phase, flag and value',
 'The order is only observable through hooks and configurations the tests do not combine.',
 ['scheme/field.py', F+'*.py'], [('pipeline', 'Field.process'), ('structural pipelines', 'process of each structural class')])
prop('C13', 'Processing never modifies the value, the schema or the caller\'s objects',
 "Processing, serializing, unserializing, extracting, interpolating, instantiating, screening and describing never modify the value passed in (at any depth), the field or its child fields, the declared defaults, nor the caller's parameters; containers in the result are new objects rather than the input containers. Hence repeating any of these calls gives the same outcome.",
 ['inputs', 'histories', 'configurations'], 'every call of these operations on every schema and value, any number of times',
 'The absence of a side effect is a statement over the whole heap after every call.',
 ['scheme/field.py', F+'*.py', 'scheme/exceptions.py'], [('fresh result containers', 'process/extract/interpolate of structural classes')])
prop('C14', 'Extraction mirrors the schema and honours screening',
 "Extracting from a subject yields None for None, and otherwise exactly the declared parts: for a structure, a dict with one extracted entry per declared key whose value is present and not null (read as dict items, or as attributes when strict is off); for sequences, tuples and maps, the extracted elements in order or under their keys. A field whose attributes do not match the given screening parameters (parameters that are None match anything) is excluded: at the top with the excluded-field error, inside a container by leaving out its element; a subject of the wrong shape, or an extractor that raises, gives the cannot-extract error.",
 ['inputs', 'configurations'], 'every schema, subject, extractor and set of screening parameters',
 'Arbitrary schemas, subjects and screening parameters.',
 ['scheme/field.py', F+'sequence.py', F+'tuple.py', F+'map.py', F+'structure.py', F+'union.py'],
 [('extract', 'extract of each class'), ('screening', 'Field.screen')])
prop('C15', 'Instantiation builds each part once, bottom-up, and elements mirror their schema',
 "Instantiating a valid value (of a schema without unions) instantiates every element with its own field, keeps positions and keys (passing the key to map and structure members), and then calls the field's instantiator exactly once with the instantiated container and the key; None and fields without an instantiator give the value itself. An element class created for a schema yields instances whose attributes are the given values or the declared defaults for absent ones, picks the registered implementation for a polymorphic identity, and serializing an instance then unserializing it restores its non-null attributes.",
 ['inputs', 'configurations'], 'every schema, value and instantiator',
 'Arbitrary nesting and instantiators.',
 ['scheme/field.py', F+'*.py', 'scheme/element.py'], [('instantiate', 'instantiate of each class'), ('Element', 'ElementMeta, Element.instantiate/extract')])
prop('C16', 'Interpolation substitutes parameters and leaves everything else in place',
 "Interpolating None gives None and an already native value of the field's type (where the field recognises it) is returned unchanged; a string that consists of one variable reference gives the referenced parameter itself, converted to the field's type for integer, float and decimal fields, and any other string is returned unchanged by non-text fields. Structural fields interpolate each declared element with its own field, keeping order and keys; a structure or map leaves out entries whose variable is undefined; a subject of the wrong shape raises the cannot-interpolate error; a union uses its first field that can interpolate.",
 ['inputs', 'configurations'], 'every schema, subject and parameter set',
 'Arbitrary nesting and parameters.',
 ['scheme/interpolation.py', 'scheme/field.py', F+'*.py'], [('interpolate', 'interpolate of each class'), ('interpolate_parameters', 'scheme/interpolation.py')])
prop('C17', 'A field rebuilt from its own description behaves identically',
 "Describing any field built from natively serializable parameters (bounds in whole seconds that UTC can represent; defaults of structural fields that serializing leaves as they are; no value that itself spells a field description) yields a description made only of natively serializable values, and reconstructing a field from that description gives a field of the same type that accepts, rejects and converts exactly the same values, recursively for structural fields. Describing does not change the field and reconstructing does not change the description; describing the rebuilt field gives an equal description.",
 ['inputs', 'configurations'], 'every field configuration with natively serializable parameters',
 'The equivalence of two fields is a statement over all values.',
 ['scheme/field.py', F+'*.py'], [('describe', 'describe of each class'), ('reconstruct', 'FieldMeta.reconstruct, Field.construct')])
prop('C18', 'Clones and schema edits are independent of the original',
 "Cloning a field gives a field of the same type with equal configuration except for the overridden parameters, and no later change to either, at any depth of its child fields and their containers, affects the other. Extending or replacing a structure returns such a copy in which exactly the named fields are added or replaced (a replacement that matches nothing returns the structure itself), and inserting, merging or removing changes exactly the named keys in place, overwriting an existing key only when asked to.",
 ['inputs', 'histories', 'configurations'], 'every field and every sequence of edits',
 'Independence must hold after any history of edits.',
 ['scheme/field.py', F+'structure.py', F+'*.py'], [('clone', 'Field.clone, __deepcopy__'), ('edits', 'Structure.extend/replace/insert/merge/remove')])
prop('C19', 'Filtering and transforming a schema changes only what was asked for',
 "Filtering keeps a field exactly when some (or, with all, every) given parameter equals its attribute (a missing attribute counting as False), and a structure then keeps exactly the member fields that pass, while a sequence, map or tuple whose element does not pass raises the cannot-filter error. Transforming replaces exactly the fields for which the transformer returns a field, at any depth, leaves a subtree alone when it returns False, and both operations return the very same field when nothing changed and otherwise a copy, never modifying the original.",
 ['inputs', 'configurations'], 'every schema, parameter set and transformer', 'Arbitrary nesting and transformers.',
 ['scheme/field.py', F+'*.py'], [('filter', 'filter of each class'), ('transform', 'transform of each class')])
prop('C20', 'Defining a placeholder completes every schema that uses it',
 "A schema built with an undefined placeholder raises the undefined-field error, and nothing else, whenever the placeholder would have to be used; once the placeholder is defined, every structural field that referenced it, however many there are and at whichever position or key, behaves as if it had been built with the defined field (a structure member taking the key as its name). A placeholder already defined when a schema is built is replaced at once.",
 ['inputs', 'histories', 'configurations'], 'every schema, position and order of definition and use', 'Order of definition and use and number of references are unbounded.',
 ['scheme/field.py', F+'sequence.py', F+'tuple.py', F+'map.py', F+'structure.py', F+'union.py'],
 [('registration', 'Undefined.register/define'), ('placement', '_define_undefined_field of each class')])
prop('C21', 'Formats are looked up and applied consistently',
 "A registered format is found equally by its name, its mimetype, its class and, for files, by the file's extension regardless of case; an explicit format overrides the extension, and an unknown format, unknown extension or missing file raises ValueError (a missing file read quietly gives False). Serializing with a format processes the value as outbound first and unserializing decodes before processing inbound, and for JSON-representable data writing and reading back through JSON gives an equal value.",
 ['inputs', 'configurations'], 'every format key, path and value', 'Combination of keys, paths and values.',
 ['scheme/format.py', 'scheme/field.py', 'scheme/formats/json.py'], [('registry', 'FormatMeta'), ('dispatch', 'Format.read/write/serialize/unserialize')])
prop('C22', 'Data written as XML is read back unchanged',
 "For every schema made of boolean, integer, float, text, binary, date, time, datetime, decimal, UUID, token and text enumeration fields in sequences, tuples, maps and non-polymorphic structures, whose keys and names are XML names of ASCII characters without colons, and every value processed outbound and serialized whose texts consist of XML characters other than carriage returns, unserializing the XML it is serialized to with the same schema gives an equal value, with null, empty containers and empty strings kept apart and special characters escaped, with and without the preamble.",
 ['inputs', 'configurations'], 'every such schema and value', 'Value space unbounded.',
 ['scheme/formats/xml.py'], [('codec', 'Xml._serialize_content/_unserialize_element')])
prop('C23', 'Tabular data written as CSV is read back unchanged',
 "For every sequence of non-polymorphic structures with at least one selected member of a boolean, integer, float, text, binary, date, time, datetime, decimal, UUID, token or text enumeration field, and every list of such structures processed outbound and serialized (with texts free of NUL characters and within csv's limit on the size of a cell), serializing to CSV writes a header with the selected non-structural columns (all of them in sorted order by default) and one row per item, and unserializing it with the same schema gives the rows back with every non-null, non-empty selected value converted to its type and absent values left out, whatever commas, quotes or line breaks the text cells contain.",
 ['inputs', 'configurations'], 'every table and cell text', 'Cell texts are unbounded.',
 ['scheme/formats/csv.py'], [('codec', 'Csv.serialize/unserialize')])
prop('C24', 'Structured text and URL-encoded data are read back unchanged',
 "Any nesting of dicts and lists of booleans, nulls and texts serialized as structured text, and any dict of such values serialized URL-encoded, is restored by unserializing, with brackets and braces inside texts escaped. Texts are those the format can carry: not empty, free of commas, backslashes and vertical bars, not spelled true, false or null in any case, and, URL-encoded, of characters UTF-8 can encode; names are non-empty texts that are also free of colons, brackets and braces.",
 ['inputs'], 'every such value', 'Nesting is unbounded.',
 ['scheme/formats/structuredtext.py', 'scheme/formats/urlencoded.py'], [('codec', 'StructuredText._serialize_content/_unserialize_*')])
prop('C25', 'YAML output denotes the value that was serialized',
 "The YAML written for any nesting of dicts and lists of nulls, booleans, numbers and texts parses, with a standard YAML parser, to an equal value.",
 ['inputs'], 'every such value', 'The scalar syntax of YAML has many special forms that samples do not hit.',
 ['scheme/formats/yaml.py'], [('emitter', 'Yaml._serialize_*')])
prop('C26', 'Constructors reject meaningless configurations and store meaningful ones',
 "Constructing a field (from parameters other than the names of objects to import) either raises TypeError or ValueError or yields a field whose configuration is meaningful: bounds are absent or of the field's type, lengths are absent or non-negative integers, items, values and members are fields or placeholders, enumerations contain only natively serializable values, and discriminators are fields. Equivalent spellings (a bound given as text, a space-delimited list of keys or values) give the same configuration as the explicit ones.",
 ['inputs', 'configurations'], 'every argument value of every field constructor', 'Arguments range over all values.',
 [F+'*.py', 'scheme/field.py'], [('argument checks', '__init__ of each class')])
prop('C27', 'Nested-value utilities read, write and merge exactly the addressed entries',
 "Traversing a dotted path returns the value reached by following its keys, and setting a nested value changes exactly the addressed entry; a missing key raises KeyError and a non-mapping on the way raises TypeError, with nothing changed. Recursively merging a dict into another merges mappings key by key at every depth, lets the addition win elsewhere, keeps all other entries, and does not modify the addition.",
 ['inputs'], 'every nested dict and path', 'Depth and contents unbounded.',
 ['scheme/util.py'], [('traverse/set/merge', 'traverse_to_key, set_nested_value, recursive_merge')])
prop('C28', 'Serialized surrogates are restored with their class, schema and version',
 "A surrogate of an importable class constructed with an inherent schema version (the last one by default) or a dynamic schema, from content without the reserved keys that the schema carries through processing there and back, serializes to a dict that records its class, its version when above one or its dynamic schema, and unserializing that dict restores a surrogate of the same class, content and version and with an equally described schema, changing neither the surrogate nor the dict. A surrogate field gives surrogates back, and refuses other values and, with an error of its own, surrogates of classes it does not list when it lists any.",
 ['inputs', 'configurations'], 'every surrogate class, schema and value', 'Arbitrary schemas and contents.',
 ['scheme/surrogate.py', F+'surrogate.py'], [('codec', 'surrogate.construct/serialize/unserialize'), ('lookup', 'surrogate._get_implementation, SurrogateMeta'), ('field', 'Surrogate._validate_value/_unserialize_value')])
with open('/verif/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P))
