#!/usr/bin/env python3
"""Writes properties.jsonl (kept as Python so that the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=False):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a['observe_at'] = [observe]
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

p('C01', 'Loading any byte stream ends with a drawing or an error',
  'Loading any sequence of bytes - text DXF, binary DXF, DXB, damaged or hostile - returns either a drawing or an error. It never panics (integer overflow included), aborts, overflows the stack or fails to end, and the memory it takes stays in proportion to the size of the input, whatever counts and lengths the input claims.',
  ['inputs'], 'every byte string, in particular every truncation, splice, pair-level edit and numeric extreme of a valid text, binary or DXB file, with the default or another text encoding',
  'Unit tests feed a few dozen hand-written pair lists; the crash and hang conditions depend on values (counts, dates, nesting, missing terminators) those never contain.',
  ['src/drawing.rs', 'src/code_pair_iter.rs', 'src/code_pair_value.rs', 'src/helper_functions.rs', 'src/entity.rs', 'src/entity_iter.rs', 'src/object.rs', 'src/x_data.rs', 'src/extension_data.rs', 'src/dxb_reader.rs', 'src/thumbnail.rs', 'src/section_type_settings.rs', 'src/section_geometry_settings.rs', 'src/table_cell_style.rs'],
  [('load entry point', 'src/drawing.rs Drawing::load_with_encoding'), ('tokenisers', 'src/code_pair_iter.rs'), ('hand-written record readers', 'src/entity.rs, src/object.rs apply_custom_reader'), ('DXB', 'src/dxb_reader.rs')],
  'result of loading in a child process with CPU and allocation limits')

p('C02', 'A drawing that loaded can be saved, and what is saved loads again',
  'Every drawing obtained by loading an arbitrary file can be saved without panic or error as text and as binary for every supported version (R10 and later), and the saved bytes load again. The reloaded drawing has the same number of items of every kind that the version can hold (table records that its items and header refer to may be added), and saving it once more reproduces a file of the same records.',
  ['inputs', 'configurations'], 'every loadable input (including oddly damaged ones whose values lie outside any sane range), every target version, both encodings',
  'Tests save drawings built in memory with tidy values; values that only a file can introduce (out-of-range enumerations, dangling references, huge numbers, odd lengths) are never saved.',
  ['src/drawing.rs', 'src/code_pair_writer.rs', 'src/entity.rs', 'src/object.rs', 'src/table.rs', 'src/header.rs', 'src/helper_functions.rs'],
  [('save', 'src/drawing.rs code_pairs/save_internal'), ('value formatting', 'src/code_pair_value.rs'), ('date and duration conversion', 'src/helper_functions.rs')],
  'save result, reload result and item counts')

p('C03', 'Entities survive saving and loading with all their data',
  'Any entity of any kind, with any values in its public fields (geometry, text, enumerations, colours, flags, common properties such as layer, line type, visibility, owner), that is added to a drawing and saved as text or binary loads back as one entity of the same kind, in the same position among its siblings, with the same values in every field the file version defines. Fields the version does not define come back with their default value, and entities the version does not support are omitted without affecting their neighbours. In text form numbers are kept to 12 decimals, in binary form exactly.',
  ['inputs', 'configurations'], 'every entity kind x every field value x every version R10..R2018 x text and binary x any sequence of neighbours',
  'The tests check single fields of a few entities in one version; interactions of shared group codes, version windows and hand-written readers over the value space are not sampled.',
  ['src/entity.rs', 'src/entity_iter.rs', 'spec/EntitiesSpec.xml', 'build/entity_generator.rs', 'src/code_pair_value.rs'],
  [('generated readers and writers', 'spec/EntitiesSpec.xml + build/entity_generator.rs'), ('hand-written readers and writers', 'src/entity.rs'), ('collection of entities', 'src/entity_iter.rs')],
  'serialised value of each entity before saving and after loading')

p('C04', 'Objects survive saving and loading with all their data',
  'Any non-graphical object of any kind (dictionaries, layouts, plot settings, styles, materials, data tables, indexes, render and section settings, records of raw pairs and so on), with any values in its public fields, that is added to a drawing and saved as text or binary at a version that supports it loads back as one object of the same kind, in order, with the same values in every field that version defines. Objects a version does not support are omitted without affecting the others.',
  ['inputs', 'configurations'], 'every object kind x every field value x every version R13..R2018 x text and binary',
  'Most object kinds are only tested with default values (a smoke test); the hand-written state-machine readers are exercised by a handful of examples.',
  ['src/object.rs', 'src/object_iter.rs', 'spec/ObjectsSpec.xml', 'build/object_generator.rs', 'src/section_type_settings.rs', 'src/section_geometry_settings.rs', 'src/table_cell_style.rs', 'src/data_table_value.rs', 'src/transformation_matrix.rs'],
  [('generated readers and writers', 'spec/ObjectsSpec.xml + build/object_generator.rs'), ('hand-written readers and writers', 'src/object.rs')],
  'serialised value of each object before saving and after loading')

p('C05', 'Table records survive saving and loading with all their data',
  'Any layer, line type, text style, dimension style, view, viewport, UCS, application id or block record, with any values in its public fields, that is added to a drawing and saved loads back as exactly one record of that table, in order, with the same name, handle and the same value in every field the version defines. A layer keeps both its colour and whether it is switched on.',
  ['inputs', 'configurations'], 'every table kind x every field value x any number of records x every version R10..R2018 x text and binary',
  'Tests write or read a few fields of a few records in one direction; no test round-trips a whole record, or many records over several versions.',
  ['src/table.rs', 'spec/TableSpec.xml', 'build/table_generator.rs', 'src/helper_functions.rs', 'src/color.rs'],
  [('table reader and writer', 'build/table_generator.rs'), ('layer colour sign', 'src/helper_functions.rs read_color_value, src/color.rs writable_color_value')],
  'serialised value of each record before saving and after loading')

p('C06', 'Header variables survive saving and loading',
  'Any assignment of values to the drawing header - version, units, limits, dates, durations, colours, enumerations, names, ids, handles - is reproduced after saving and loading as text or binary for every variable the file version defines, and variables it does not define come back with their default value. Dates and durations are kept to the second.',
  ['inputs', 'configurations'], 'every header variable x every value of its type x every version R10..R2018 x text and binary',
  'A few variables are tested one at a time; more than 250 variables share readers that switch on a name and a sub-index, and version windows differ per variable.',
  ['src/header.rs', 'spec/HeaderVariablesSpec.xml', 'build/header_generator.rs', 'src/helper_functions.rs'],
  [('generated header reader and writer', 'build/header_generator.rs'), ('date, duration, id conversions', 'src/helper_functions.rs')],
  'serialised header before saving and after loading')

p('C07', 'Blocks, their contents and classes survive saving and loading',
  'Every block added to a drawing loads back after saving with its name, layer, base point, flags, description, path name, handle and its entities with their values, in order and in the right block, and each block has exactly one block record. Every class definition loads back with all its fields in the layout of the file version. Neither grows, shrinks or migrates over repeated save and load cycles.',
  ['inputs', 'configurations', 'histories'], 'every list of blocks with arbitrary contents and every list of classes x every version R10..R2018 x text and binary x any number of cycles',
  'Tests parse or write one block or class at a time and never cycle a drawing more than once.',
  ['src/block.rs', 'src/class.rs', 'src/drawing.rs', 'src/entity_iter.rs'],
  [('block reader and writer', 'src/block.rs'), ('class reader and writer', 'src/class.rs'), ('block registration', 'src/drawing.rs add_block_no_handle_set')],
  'blocks, block records and classes after loading')

p('C08', 'Text and binary forms of a drawing are equivalent',
  'Saving a drawing as text and as binary gives files with the same sequence of group codes and values (numbers equal to the 12 decimals text keeps), and loading either yields the same drawing. This includes empty and long binary data, boolean, 16-, 32- and 64-bit values at their limits, group codes above 255, and both the old one-byte and the later two-byte code layout.',
  ['inputs', 'configurations'], 'every drawing x every version R10..R2018',
  'The tests write single pairs in each encoding; no test compares the two forms of a whole drawing.',
  ['src/code_pair_writer.rs', 'src/code_pair_iter.rs', 'src/code_pair_value.rs', 'src/expected_type.rs'],
  [('pair writer', 'src/code_pair_writer.rs'), ('pair readers', 'src/code_pair_iter.rs'), ('type of a group code', 'src/expected_type.rs')],
  'independently tokenised bytes of both files, and both loaded drawings')

p('C09', 'Text values survive in every version and encoding',
  'Any Unicode string without line breaks stored in a text field - non-Latin letters, characters beyond the 16-bit plane, control characters, carets, backslashes, percent codes, leading and trailing blanks, text that looks like an escape sequence - is read back unchanged after saving as text or binary, for versions that store escaped 8-bit text and for those that store UTF-8. Text files up to R2004 contain only ASCII, and files written in another 8-bit or multi-byte encoding load correctly when that encoding is named.',
  ['inputs', 'configurations'], 'every string x every version R10..R2018 x text and binary x supported source encodings',
  'A dozen fixed strings are tested; the escape grammar has interacting layers whose failures need specific adjacent characters.',
  ['src/code_pair_value.rs', 'src/code_pair_iter.rs', 'src/code_pair_writer.rs', 'src/helper_functions.rs'],
  [('escaping and unescaping', 'src/code_pair_value.rs'), ('decoding of lines', 'src/helper_functions.rs read_line'), ('switch to UTF-8', 'src/header.rs, src/code_pair_put_back.rs')],
  'text fields after a cycle, and the raw bytes of the file')

p('C10', 'Saved files put every value at its standard place',
  'In a saved file every property of an entity, object, table record or header variable appears under its DXF record name and group code, with the standard numeric value for enumerations, flags, colours and booleans, and no pair is written that the file version does not define. The version code of the file is the standard one for the chosen version.',
  ['inputs', 'configurations'], 'every item kind x every field value x every version R10..R2018',
  'Tests check the bytes of a few records; a change made consistently to reader and writer would still round-trip but produce files other programs misread.',
  ['src/entity.rs', 'src/object.rs', 'src/table.rs', 'src/header.rs', 'src/enums.rs', 'spec/EntitiesSpec.xml', 'spec/ObjectsSpec.xml', 'spec/TableSpec.xml', 'spec/HeaderVariablesSpec.xml', 'build/entity_generator.rs', 'build/object_generator.rs', 'build/table_generator.rs', 'build/header_generator.rs'],
  [('group codes and version windows', 'spec/*.xml'), ('enumeration numbers', 'src/enums.rs'), ('version codes', 'src/enums.rs AcadVersion')],
  'pairs of the saved file as seen by an independent tokeniser')

p('C11', 'Files written by other programs are read at face value',
  'When a file produced by another program contains a record with properties under their standard group codes - in any order the format allows, with or without optional pairs, with numeric values in any accepted spelling - the loaded item carries exactly those values and defaults elsewhere. Enumeration values outside the standard range become the documented default instead of failing the load.',
  ['inputs', 'configurations'], 'every item kind x every subset, order and value of its pairs x every version R10..R2018 x text and binary encodings',
  'Tests parse short hand-written fragments for a few kinds, always in one order.',
  ['src/entity.rs', 'src/object.rs', 'src/table.rs', 'src/header.rs', 'src/block.rs', 'src/class.rs', 'spec/EntitiesSpec.xml', 'spec/ObjectsSpec.xml', 'spec/TableSpec.xml', 'spec/HeaderVariablesSpec.xml'],
  [('generated readers', 'build/*_generator.rs'), ('number parsing', 'src/helper_functions.rs parse_*')],
  'serialised loaded items compared with the values put into an independently written file')

p('C12', 'Saved files are structurally well formed for their version',
  'Every saved file consists of properly bracketed sections in the standard order ending with the end-of-file marker, each table once with matching begin and end markers, and blocks with matching end markers; the objects section and block record table appear only from R13 on, the thumbnail section only from R2000 on, and entities and objects only in versions that support them. The records are exactly those of the drawing, in order, parts directly after their parent and closed by their end marker. Each record starts with its type, then its handle when the version or the settings call for handles; from R13 on it carries the subclass markers of its kind in order; lists of points and similar are preceded by their true count.',
  ['inputs', 'configurations'], 'every drawing x every version x handles enabled or not x text and binary',
  'Tests look for a few expected fragments in an otherwise unexamined output.',
  ['src/drawing.rs', 'src/block.rs', 'src/class.rs', 'src/entity.rs', 'src/object.rs', 'build/table_generator.rs'],
  [('section writers', 'src/drawing.rs add_*_pairs'), ('table writer', 'build/table_generator.rs'), ('subclass markers', 'spec/*.xml WriteOrder')],
  'structure of the saved file as parsed by an independent parser')

p('C13', 'Loading ignores presentation differences and foreign content',
  'Comments anywhere between pairs, LF or CRLF line ends, blanks around numbers and codes, a leading byte order mark, a missing end-of-file marker or trailing line end, and anything after the end-of-file marker do not change the drawing that is loaded. Sections, tables, entities, objects, header variables and group codes the library does not know are skipped without losing or altering anything around them.',
  ['inputs'], 'every valid file x every combination of presentation edits and insertions of unknown content at every position where the format allows it',
  'Tests contain one or two fixed examples of each tolerance, at one position.',
  ['src/code_pair_put_back.rs', 'src/code_pair_iter.rs', 'src/helper_functions.rs', 'src/drawing.rs', 'src/entity.rs', 'src/object.rs', 'src/header.rs', 'build/table_generator.rs'],
  [('comment skipping', 'src/code_pair_put_back.rs'), ('line reading', 'src/helper_functions.rs read_line'), ('unknown content', 'src/drawing.rs swallow_section, Entity::read, Object::read, swallow_table')],
  'drawing loaded from the edited file compared with the one loaded from the original')

p('C14', 'Saving is repeatable, pure and reaches a fixed point',
  'Saving a drawing never changes it and gives the same bytes every time, and two drawings built by the same operations or loaded from the same bytes save to the same bytes. After one save and load, further save and load cycles reproduce the same file: items, order, handles and values neither accumulate nor drift (before R13, where block records are not stored, only the next-handle seed may advance).',
  ['inputs', 'histories', 'configurations'], 'every drawing (built or loaded) x every version x text and binary x any number of cycles, in one process and across processes',
  'No test saves twice or cycles more than once; hash-order effects differ from process to process.',
  ['src/drawing.rs', 'src/header.rs', 'src/object.rs', 'src/block.rs', 'src/code_pair_value.rs'],
  [('save', 'src/drawing.rs'), ('hash-ordered collections', 'src/drawing.rs, src/object.rs'), ('number formatting', 'src/code_pair_value.rs')],
  'bytes of successive saves; serialised drawing before and after saving')

p('C15', 'Handles are unique, stable and resolve to their item',
  'Through any history of adding items and of saving and loading, every item of a drawing has a non-zero handle that no other item shares, new items never receive a handle already in use, and the handle recorded as next available is greater than every handle in use. Looking up a handle, mutably or not, returns exactly the item in the collections of the drawing that carries it, and references between items (owner, style, definition and similar pointers) set through the API still lead to the same item after saving and loading in versions that store handles.',
  ['histories', 'configurations', 'inputs'], 'every sequence of additions, reference settings, saves and loads, including loading files whose recorded next handle is missing, low or wrong',
  'Tests add one or two items; collisions need a load followed by an addition, or children of compound entities and of blocks.',
  ['src/drawing.rs', 'src/handle.rs', 'src/drawing_item.rs', 'src/header.rs', 'src/entity.rs', 'src/object.rs', 'src/block.rs'],
  [('handle allocation', 'src/drawing.rs next_handle, assign_and_get_handle'), ('lookup', 'src/drawing.rs item_by_handle(_mut)'), ('reference setters', 'build/*_generator.rs')],
  'handles of all items, and lookups, after every step')

p('C16', 'Collections behave like lists under any history of edits',
  'For every kind of item (entities, objects, blocks and every table) adding appends the item with the values given, removing by position returns exactly that item and keeps the others in order, removing out of range changes nothing and returns nothing, iteration (shared or mutable) visits exactly the present items in order, and clearing leaves the drawing empty. Operations on one collection affect another only by adding, once and with default values, the layers, line types, styles, views and block records that the added item names and that are missing.',
  ['histories'], 'every sequence of add, remove, edit, clear and normalise operations over all collections',
  'Tests add or remove one item; nothing exercises sequences or cross-collection effects.',
  ['src/drawing.rs'],
  [('collection API', 'src/drawing.rs add_*, remove_*, *_mut, clear')],
  'all collections compared with a model of lists after every operation')

p('C17', 'Referenced names exist, and normalising is complete and idempotent',
  'After an item is added or loaded, every layer, line type, text style, dimension style, multiline style, view and block record that it names (an entity, also one inside a block or an attribute of an insert, a block, a layer or an object) exists under that name. After normalising, the standard records every drawing needs exist, and so do the current layer, line type, text style, dimension style and the UCSs the header names. Normalising twice is the same as normalising once, never removes or alters existing records, repairs only the invalid settings it is documented to repair, and leaves each table sorted by name.',
  ['histories', 'inputs'], 'every drawing and every history of additions and removals followed by normalisation',
  'Tests normalise a new drawing or one with a single dangling reference.',
  ['src/drawing.rs', 'src/header.rs', 'src/helper_functions.rs'],
  [('presence guarantees', 'src/drawing.rs ensure_*'), ('normalisation', 'src/drawing.rs normalize*, src/header.rs normalize')],
  'tables and serialised drawing before and after normalising')

p('C18', 'Compound entities keep their parts together and in order',
  'An insert keeps its attributes, a polyline its vertices, an attribute its multi-line text, and each comes back after saving and loading attached to the same parent, in order and with all values, for any number of parts including none and for any neighbouring entities, inside blocks as well as in the drawing. Parts are never promoted to stand-alone entities, sequence-end markers are consumed with their parent, and adding or changing parts through the parent affects only that parent.',
  ['inputs', 'histories', 'configurations'], 'every nesting of parents and parts x every version R10..R2018 x text and binary x files with missing or superfluous sequence-end markers',
  'Tests cover one insert with one attribute and one polyline with two vertices.',
  ['src/entity_iter.rs', 'src/entity.rs', 'src/drawing.rs', 'src/block.rs'],
  [('collecting parts', 'src/entity_iter.rs'), ('writing parts', 'src/entity.rs add_post_code_pairs'), ('part accessors', 'src/entity.rs Insert, Polyline')],
  'the tree of entities before saving and after loading')

p('C19', 'Extended data and extension groups survive',
  'Application extended data (all value kinds, nested lists, any number of applications, long strings and binary data) and application-defined groups attached to any entity, object, block or table record are reproduced in order after saving and loading in versions that store them (groups without contents are not stored; binary files may split binary data into pieces of 255 bytes), for every kind of carrier. They never change or are confused with the carrier\'s own properties or those of the following item.',
  ['inputs', 'configurations'], 'every tree of extended data and extension groups x every carrier kind x every version x text and binary',
  'Tests attach one small list to a line; nesting, many applications and carriers with trailing parts are not covered.',
  ['src/x_data.rs', 'src/extension_data.rs', 'src/entity.rs', 'src/object.rs', 'src/block.rs', 'build/table_generator.rs'],
  [('extended data', 'src/x_data.rs'), ('extension groups', 'src/extension_data.rs')],
  'extended data and extension groups before saving and after loading')

p('C20', 'The thumbnail image survives pixel for pixel',
  'A thumbnail image (8 bits per channel) of any size above zero and any pixel content set on a drawing is the same image after saving and loading as text or binary in every version that stores thumbnails, and is absent in versions that do not, without disturbing the rest of the drawing. A thumbnail written by another program in an uncompressed Windows bitmap layout loads with the right pixels, and a damaged one is reported or ignored without losing the rest.',
  ['inputs', 'configurations'], 'every image size, pixel content and pixel format x every version x text and binary',
  'Two fixed tiny images are tested.',
  ['src/thumbnail.rs', 'src/drawing.rs'],
  [('reading', 'src/thumbnail.rs read_thumbnail'), ('writing', 'src/drawing.rs add_thumbnail_pairs')],
  'pixels before saving and after loading')

p('C21', 'DXB files carry the supported geometry faithfully',
  'Saving as DXB and loading the result gives back, in order and with the same coordinates, every line, point, circle, arc, trace, solid, face and polyline of the drawing (with its layer and colour), within the format\'s number width (a layer name keeps the characters that a single byte can hold); other entities are left out. A DXB file written by another program, with either number format, any scale factor and any order of settings, loads with the geometry it describes.',
  ['inputs'], 'every list of DXB-representable entities with arbitrary layers, colours, blocks and coordinates; every well-formed DXB stream',
  'Tests write or read one or two records.',
  ['src/dxb_writer.rs', 'src/dxb_reader.rs', 'src/dxb_item_type.rs'],
  [('writer', 'src/dxb_writer.rs'), ('reader', 'src/dxb_reader.rs')],
  'entities after loading; bytes as produced by an independent DXB encoder')

p('C22', 'I/O failures are reported, and success means complete output',
  'If the underlying reader or writer fails at any point, loading or saving in any format reports an error and never returns a partial drawing as success; readers and writers that deliver data in arbitrary small pieces or are interrupted give the same result as one call. When saving to a file reports success the file holds exactly the bytes that saving to memory gives, and loading a file gives the same drawing as loading its bytes.',
  ['fault_sequences', 'inputs', 'crash_points'], 'every drawing x every byte position of a failure x every chunking x text, binary and DXB x stream and path based calls',
  'No test injects an I/O failure.',
  ['src/drawing.rs', 'src/code_pair_writer.rs', 'src/dxb_writer.rs', 'src/dxb_reader.rs', 'src/helper_functions.rs', 'src/code_pair_iter.rs'],
  [('file saving', 'src/drawing.rs save_file_internal, save_file_dxb'), ('byte-wise reading', 'src/helper_functions.rs read_line, read_u8')],
  'result of the call and the bytes or drawing produced')

p('C23', 'Damaged files are rejected rather than silently losing data',
  'If a number in a file cannot be read as the type its group code demands, a group code is not a known one, a text line cannot be decoded, or the file ends inside a section or a pair, loading returns an error that says so; it never returns a drawing that silently lacks the damaged item or what follows it. The position reported with the error is that of the damaged pair.',
  ['inputs', 'fault_sequences'], 'every valid file x every single damage of a pair at every position, in header, tables, blocks, entities, objects and thumbnail, text and binary',
  'A few damaged fragments are tested at one position each.',
  ['src/drawing.rs', 'src/code_pair_iter.rs', 'src/entity_iter.rs', 'src/object_iter.rs', 'src/entity.rs', 'src/object.rs', 'src/helper_functions.rs', 'src/header.rs', 'src/dxf_error.rs'],
  [('error propagation', 'src/entity_iter.rs, src/object_iter.rs, src/drawing.rs'), ('number parsing', 'src/helper_functions.rs')],
  'error or drawing returned by loading')

p('C24', 'Flag, colour, line weight, version and point helpers obey their laws',
  'Setting a flag-style property changes exactly that property and reads back what was set, whatever the other properties of the item are; colour and line weight constructors, queries and setters are consistent with each other (each special value is recognised by exactly its own query, and an index or enumerated weight reads back what was set); vectors, points and matrices behave as their definitions say; and version names, comparisons and strings agree.',
  ['histories', 'inputs'], 'every sequence of setter calls on every item kind and every raw value',
  'Tests check a few constants; independence of flags needs sequences of setters over all combinations.',
  ['src/color.rs', 'src/line_weight.rs', 'src/entity.rs', 'src/header.rs', 'src/table.rs', 'src/block.rs', 'src/enums.rs', 'src/point.rs', 'src/vector.rs', 'src/transformation_matrix.rs', 'build/entity_generator.rs', 'build/header_generator.rs', 'src/class.rs'],
  [('flag accessors', 'build/*_generator.rs'), ('colour', 'src/color.rs'), ('line weight', 'src/line_weight.rs'), ('version', 'src/enums.rs')],
  'getters after every setter call, compared with a model')

p('C25', 'JSON serialisation of a drawing is lossless',
  'With serialisation enabled, converting any drawing with finite numbers to JSON and back gives a drawing that equals the original in every item and value, saves to the same bytes in every version and form, and allocates the same next handles. Only the thumbnail is left out.',
  ['inputs'], 'every drawing',
  'A single default object is serialised by the tests.',
  ['src/drawing.rs', 'src/entity.rs', 'src/object.rs', 'src/table.rs', 'src/header.rs', 'src/lib.rs', 'Cargo.toml'],
  [('derived serialisation', 'all public types'), ('drawing', 'src/drawing.rs')],
  'JSON value and saved bytes of both drawings')

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
