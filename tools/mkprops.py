#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

core, enc, dec, util, cod, thr = ('ebmlite/core.py', 'ebmlite/encoding.py', 'ebmlite/decoding.py',
    'ebmlite/util.py', 'ebmlite/xml_codecs.py', 'ebmlite/threaded_file.py')

prop('C01', 'Element size descriptors encode and decode as exact inverses',
 "Every element size from 0 to 2^56-2 is encoded in exactly the requested descriptor width (1 to 8 bytes), or in the "
 "fewest bytes that can hold it when no width is requested, and decodes to the same size, consuming exactly the descriptor's own bytes. "
 "The all-ones descriptor of each width, and no other, decodes as 'unknown size'. "
 "A size that does not fit the requested width is refused and never written as a different size or as 'unknown'.",
 ['inputs'], 'all sizes in 0..2^56-2, all widths 1..8, all descriptor byte patterns',
 'Tests try a handful of sizes and never round-trip a descriptor, an explicit width that is too small, or sizes next to the reserved all-ones values.',
 [enc, dec], [('getLength/encodeSize', enc), ('decodeIntLength/readElementSize', dec)],
 observe=['encodeSize() bytes', 'readElementSize() result and stream position'])

prop('C02', 'Element IDs: exactly the well-formed ones are valid, and each is read back',
 "An element ID is reported valid exactly when it lies in one of the four class ranges (1 to 4 bytes, length marker consistent with its width, reserved values excluded). "
 "Every valid ID is written as its own canonical bytes and read back as the same ID with its own length, and a leading byte that cannot start an ID of 1 to 4 bytes is rejected. "
 "ID generation returns distinct valid IDs of the requested class, inside the requested inclusive bounds, none already in the schema or excluded, lowest first, as many as asked for unless fewer exist.",
 ['inputs'], 'all IDs 0..2^29 (and negative), all first bytes, all (schema, class, bounds, exclusions, count) requests of the bounded space',
 'Tests check a dozen IDs at the range ends and a few generation requests.',
 [util, enc, dec], [('createID/validateID', util), ('encodeId', enc), ('decodeIDLength/readElementID', dec)],
 observe=['validateID()', 'encodeId() bytes', 'readElementID()', 'createID() list'])

prop('C03', 'Numbers and dates survive encoding at every legal width',
 "Every signed and unsigned 64-bit integer, every float (single precision at width 4, double at 8) and every date with microsecond precision in the representable range, encoded at its natural width or at any explicit legal width that can hold it (integers 1 to 8 bytes, floats 4 or 8, dates 8), decodes to the same value; natural integer encodings are the shortest of at least one byte that decode correctly, and empty payloads decode as zero. "
 "An integer that does not fit the requested width or 64 bits, a negative unsigned value, an illegal float or date width, or a value of a wrong type (not a number, or not a date) is refused with an error rather than altered.",
 ['inputs'], 'all 64-bit integers, all floats, all dates, all widths',
 'Tests encode some hand-picked constants and decode others; they never compose the two over widths and boundaries.',
 [enc, dec, core], [('encodeInt/encodeUInt/encodeFloat/encodeDate', enc), ('readInt/readUInt/readFloat/readDate', dec), ('IntegerElement/UIntegerElement/FloatElement/DateElement', core)],
 observe=['encode*() bytes', 'element.value'])

prop('C04', 'Text and binary payloads survive encoding, padding and truncation',
 "Binary data is preserved byte for byte; printable ASCII strings and Unicode strings without NUL are preserved exactly, and characters an ASCII string cannot hold are each replaced by '?'. "
 "With an explicit length the payload is exactly that long: shorter values are padded at the end with zero bytes, which are invisible when text is read back; longer text is cut so that what is read back is a prefix of the original; and longer binary data is refused. "
 "Reading text stops at the first NUL byte, and values that are not text or bytes are refused.",
 ['inputs'], 'all byte strings and texts of the bounded alphabet and lengths, all explicit lengths',
 'Tests use about ten literals and never read back what was encoded.',
 [enc, dec, core], [('encodeBinary/encodeString/encodeUnicode', enc), ('readString/readUnicode', dec), ('BinaryElement/StringElement/UnicodeElement', core)],
 observe=['encode*() bytes', 'element.value'])

prop('C05', 'Reading a well-formed document reports exactly the elements it contains',
 "For every well-formed document whose elements all have known sizes, reading yields exactly its elements, in file order and at every nesting depth, each with the correct type, name, ID, position, header length, payload size, decoded value and raw bytes. "
 "This holds whatever descriptor widths and payload sizes (including beyond 4 GiB) were used and whatever kind of stream or starting position the document is read from. "
 "Elements whose ID is not in the schema are reported as unknown elements carrying their own ID and payload, and never disturb their neighbours.",
 ['inputs', 'configurations'], 'all documents generated by the bounded grammar (structure, element types, descriptor widths, payload sizes), all stream kinds',
 'Tests parse a few sample files and compare conversions with themselves; wrong offsets or boundaries for shapes not in those files are not seen.',
 [core, dec], [('MasterElement.parseElement/__iter__, Document.__iter__', core), ('readElementID/readElementSize', dec)],
 state=[('offset/payloadOffset/size', 'boundaries of an element', core)],
 observe=['Document iteration', 'element attributes', 'getRaw()/getRawValue()'])

prop('C06', 'Containers of unknown size end exactly where the schema says',
 "A container written with unknown size contains the longest run of following elements that the schema allows in it (its declared children and global elements), and ends at the first element that is not allowed or at the end of the file. "
 "Its reported size, children, length and values are the same as if it had been written with that explicit size, and elements after it are read exactly as before. "
 "This holds for every width of the unknown-size marker, for empty containers, and for containers of unknown size nested in one another.",
 ['inputs'], 'all documents of the bounded grammar in which some containers have unknown size',
 'One sample file has one container of unknown size, at the end of the file.',
 [core], [('MasterElement.size/_isValidChild', core)],
 state=[('_size/_length', 'lazily computed size and child count', core)],
 observe=['element.size', 'len(element)', 'iteration'])

prop('C07', 'Documents encoded through a schema read back as the same data',
 "Document data given as a dictionary, as a list of name/value pairs, or as lists of these for repeated elements, nested to any depth, keyed by element name or ID, and written to a stream or returned as bytes, reads back with the same elements, order and values as the data given. "
 "If headers are requested the document starts with a header holding the schema's declared defaults. "
 "Names not in the schema, a list of several values for an element that may occur only once, and data of a wrong type are refused with an error.",
 ['inputs', 'programs'], 'all data values of the bounded grammar, all accepted forms, all shipped element types',
 'Tests encode a single element; list-of-pairs input, nesting and repetition are never exercised.',
 [core], [('Element.encode, MasterElement.encode/encodePayload, Document.encode, Schema.encode/encodes', core)],
 observe=['bytes written', 'dump() of the re-read document'])

prop('C08', 'Written headers always agree with the payload, and fixed layouts are honoured',
 "Whatever the element type, value, explicit payload length (given in the call or fixed by the schema), descriptor width or unknown-size request, the encoded element is the ID, a descriptor of exactly the requested width, and a payload of exactly the size the descriptor announces. "
 "An explicit payload length is honoured exactly or the call is refused. "
 "Only containers may be written with unknown size, and such an element reads back as unknown-sized with its children intact.",
 ['inputs', 'configurations'], 'all (type, value, length, descriptor width, unknown-size) combinations of the bounded space',
 'Tests never combine explicit lengths with descriptor widths or unknown size and never re-read the result.',
 [core, enc], [('Element.encode/MasterElement.encode', core), ('encodeSize', enc)],
 observe=['encoded bytes parsed by an independent parser'])

prop('C09', 'What is read does not depend on the order of reading',
 "Whatever sequence of operations a program performs on a document and its elements (iterating, also with several interleaved iterators; indexing; taking lengths, values, raw bytes or dumps; clearing caches; moving the underlying stream), every operation returns what it would return on a freshly loaded document. "
 "Clearing caches reports the number of cached values dropped, and a value re-read afterwards is the same as before.",
 ['histories'], 'all operation sequences up to the bounded depth over a set of documents covering every element kind',
 'Tests call one operation on a fresh object; lazily cached state and the shared stream position only matter in sequences.',
 [core], [('Element.value/gc, MasterElement.value/__len__/size/gc, Document.__getitem__', core)],
 state=[('_value, _size, _length', 'per-element caches', core), ('stream position', 'shared by all elements of a document', core)],
 observe=['results of every operation of a sequence'])

prop('C10', 'A file cut off at any byte still yields everything complete before the cut',
 "If a document is truncated at any byte, reading it yields, unchanged and in order, every element that lies completely before the cut, at every nesting depth, followed by at most one incomplete element per level and then the end or an error. "
 "Except for containers that are themselves read in advance, reading never yields an element that starts at or after the cut; it never hangs, and never crashes in a way other than raising an exception.",
 ['crash_points'], 'every prefix of every document of the bounded set, including unknown-size containers and wide descriptors',
 'No test reads a truncated file.',
 [core, dec], [('end-of-file handling in MasterElement/Document.__iter__ and MasterElement.size', core), ('readElementID/readElementSize', dec)],
 observe=['iteration of the truncated document'])

prop('C11', 'Arbitrary bytes never derail or hang reading',
 "For any sequence of bytes, loading succeeds, and iterating the document terminates: it yields elements whose positions strictly increase and which correspond exactly to the element headers the bytes spell out under EBML's rules, and then stops at the end of the data or raises an exception at the first position where no header can be read, where a value read in advance has an impossible size, or where the end of a container of unknown size cannot be found; a last header cut off by the end of the data may also show as an incomplete element. "
 "Everything before that position is reported exactly as if the remainder were well-formed; nothing that begins beyond a container's end is in it; elements that cross their parent's end, and size descriptors with a leading zero byte, are otherwise left open.",
 ['inputs', 'fault_sequences'], 'all byte strings up to the bounded length over an alphabet of all header classes; all single-byte corruptions of the document set',
 'No test feeds malformed data except one with a leading zero byte.',
 [core, dec], [('parseElement', core), ('decodeIDLength/decodeIntLength', dec)],
 observe=['iteration of the document'])

prop('C12', 'Stream errors surface, and leave no damage behind',
 "If the underlying stream raises an error in any single read, seek or tell while a loaded document is being read or converted, the error reaches the caller instead of being swallowed or turned into missing or wrong data. "
 "Repeating the operation once the stream works again gives the correct result. "
 "An error while writing reaches the caller too, and what was written by then is a prefix of what would have been written without the error.",
 ['fault_sequences'], 'every single (and, thorough, every pair of) failing stream operation of every script over the document set',
 'No test injects stream failures.',
 [core, util], [('lazy caching in Element.value, MasterElement.size/value/__len__', core), ('toXml/pprint/xml2ebml', util)],
 state=[('_value, _size, _length', 'caches that must only be set on success', core)],
 observe=['exceptions', 'results of the retry'])

prop('C13', 'A document converted to XML and back has the same content',
 "Any document made of valid elements of any type whose text XML can represent, converted to XML with any combination of the optional attributes and any lossless binary encoding, then serialised, parsed and converted back, gives a document with the same elements in the same order and nesting, with equal values and binary contents, and the same Void sizes. "
 "When sizes are included, every payload except those of containers keeps its size. "
 "Unknown elements survive too when IDs are included.",
 ['inputs', 'configurations'], 'all documents of the bounded grammar x option combinations x serialisations',
 'Tests compare one conversion with a second pass through the same code on two sample files that contain no dates, special floats, empty integers or non-ASCII text.',
 [util, cod], [('toXml', util), ('xml2ebml/xmlElement2ebml', util), ('BINARY_CODECS', cod)],
 observe=['bytes produced by xml2ebml, parsed independently'])

prop('C14', 'XML is converted to EBML exactly as written',
 "Converting XML (given as a file name, stream, or parsed tree) to EBML writes exactly the described elements in order, to a stream at its current position or to a named file, returns the number of bytes written, skips comments, and adds the default header exactly when asked and none is present. "
 "A requested descriptor width is honoured for containers, whether given by the call or by an element's attribute, which takes precedence; a size that cannot be represented is refused or given a wider descriptor, never misstated. "
 "Names not in the schema are written under their given ID, or refused at every depth when unknown elements are not allowed.",
 ['inputs', 'configurations'], 'all XML trees of the bounded grammar x call options',
 'Tests only convert XML that the library itself produced.',
 [util], [('xml2ebml/xmlElement2ebml/loadXml', util)],
 observe=['bytes written', 'return value', 'exceptions'])

prop('C15', 'Binary-to-text codecs are lossless for every layout',
 "For every lossless codec and every combination of its layout options (columns, word width, offset labels, indentation, starting offset, one continuous block, output to a stream or as text), decoding the encoded text gives back exactly the original bytes, for any data including empty. "
 "Text written to a stream is the same as the text returned otherwise and the returned count is its length; decoding to a stream likewise. "
 "The layout follows the options: no line holds more than the requested columns and a continuous block contains no line breaks.",
 ['inputs', 'configurations'], 'all data of bounded length classes x all layout option combinations',
 'Tests round-trip one 1024-byte string with default options only.',
 [cod], [('Base64Codec/HexCodec', cod)], observe=['encode()/decode() results'])

prop('C16', 'No operation leaves a trace that changes later ones',
 "Loading, reading, encoding, converting to or from XML, printing and failing in any of these (including with unknown elements, and alternating between schemata that give the same IDs or names different meanings) leaves no process-wide state behind: every operation gives the same result as it would in a fresh process. "
 "Arguments passed in (data, lists of paths, XML trees) are not modified.",
 ['histories'], 'all operation sequences up to the bounded depth over an alphabet of library-level operations on two conflicting schemata',
 'Tests run each operation alone; state shared through classes or modules shows only in sequences.',
 [core, util, enc, dec, cod], [('schema-specific element classes', core), ('xmlElement2ebml', util)],
 state=[('element classes', 'class attributes shared by every document of a schema', core), ('UnknownElement', 'one class shared by every schema', core)],
 observe=['result of each operation of a sequence, against a fresh process'])

prop('C17', 'A schema definition means what it says',
 "Every element definition in a schema gives an element type retrievable by ID and by name, with the declared base type, name, ID, multiplicity, mandatory flag, caching flag and fixed length (or the documented default), allowed under exactly the parents it appears in, or anywhere if global. "
 "Later abbreviated definitions of the same element add a parent and change nothing else; a definition that contradicts an earlier one, or that lacks a name or ID or has an invalid name or an ID that is not a number, is refused. "
 "The legacy flat format gives the same element types as the equivalent nested schema.",
 ['configurations', 'inputs'], 'all schemata of the bounded grammar (2-4 definitions, attributes, nesting, re-definitions)',
 'Tests load the shipped schemata and add a single element.',
 [core], [('Schema._parseSchema/_parseLegacySchema/addElement', core)],
 state=[('elements/elementsByName/elementInfo/children/globals', 'the parsed definition', core)],
 observe=['schema lookups', 'element class attributes', 'exceptions'])

prop('C18', 'Loading a schema twice gives the same schema, and never a wrong or partial one',
 "Loading the same schema file again, under the same or another spelling of its path, or parsing text under an explicitly given name already in use, returns the instance created first, unless a reload is requested, which always creates a new, current one that later loads return. "
 "A load never returns a schema defined by a different file than the one the given name and search paths designate. "
 "A load that fails raises an error and leaves every later load unaffected.",
 ['histories'], 'all sequences of load/parse/reload/edit/failing-load operations up to the bounded depth over colliding names and paths',
 'Tests do one load/reload pair.',
 [core], [('loadSchema/parseSchema and the SCHEMATA cache', core)],
 state=[('SCHEMATA', 'process-wide cache of schemata by name and path', core)],
 observe=['identity and content of returned schemata'])

prop('C19', 'Schema search finds the first match, and the listing agrees with it',
 "A schema named without a directory is loaded from the current directory, which comes first, or else from the first location in search-path order that has it, whatever mix of directories, missing directories and package references the path contains; a name found nowhere, or a package that does not exist, raises an error. "
 "Listing schemata reports, per file name, every readable schema on the path in that same order, so that (the current directory being first) its first entry is what loading by that name gives; files that are not schemata are left out. "
 "Paths in the environment variable are searched after the built-in ones.",
 ['configurations'], 'all placements of same-named files over the bounded set of locations x path orders',
 'Tests check one fixed arrangement.',
 [core, util], [('_expandSchemaPath/loadSchema/listSchemata, SCHEMA_PATH', core), ('printSchemata', util)],
 observe=['loadSchema().filename', 'listSchemata()', 'printSchemata() output'])

prop('C20', 'A loaded document presents its header, roots and stream consistently',
 "The contents of a header at the beginning are always available as the document's information, type and version; the header element itself is among the root elements exactly when headers were requested, and this changes nothing else. "
 "Indexing gives the same elements as iterating, the length is their number, and indices out of range or of a wrong kind are refused. "
 "A document closes its stream on close or context exit exactly if it opened it itself.",
 ['inputs', 'configurations'], 'all small documents with and without header x load variants x indices',
 'Tests check one sample file.',
 [core], [('Document', core), ('Schema.load/loads', core)],
 observe=['doc.info/type/version', 'indexing', 'stream.closed'])

prop('C21', 'Threads sharing a thread-aware file never disturb each other',
 "When several threads use one thread-aware file at the same time, each thread has its own position starting at the beginning of the file: under every interleaving of their opens, reads, seeks, tells and closes, every call returns exactly what it would if the thread were alone with its own file. "
 "No interleaving raises an unexpected error, deadlocks, or lets one thread's close affect another thread's reading; a thread that goes on after its own close fails as with a closed file or starts again at the beginning.",
 ['schedules'], 'all interleavings up to the bounded number of preemptions of 2-3 threads with 2-4 operations each',
 'The only test of this class runs single-threaded.',
 [thr], [('ThreadAwareFile.getThreadStream/close/cleanup/closeAll', thr)],
 state=[('threads', 'map from thread to its stream', thr), ('_ready', 'event blocking users during housekeeping', thr)],
 observe=['results of every file operation in every schedule'])

prop('C22', 'A thread-aware file behaves like a read-only file over its whole life',
 "Over any history of opening, reading, seeking, closing, closing all, cleaning up, re-opening and threads coming and going, a thread-aware file gives each thread the results of an ordinary read-only file opened by that thread alone, except that using it after closing either fails as for a closed file or re-opens it at the beginning; a thread that starts later never inherits the position or closed state of an earlier one. "
 "It can never be opened for, or used for, changing the file. "
 "Closing never fails, and wrapping an already open file keeps that file for the current thread. Printing, formatting, comparing or hashing it neither opens nor closes it, and its hash never changes, in whichever thread.",
 ['histories'], 'all operation histories up to the bounded depth, over one to three successive or parallel threads, and all open modes',
 'Tests never close a thread-aware file or use a second thread.',
 [thr], [('ThreadAwareFile', thr)],
 state=[('threads', 'map from thread to its stream', thr)],
 observe=['results of file operations', 'file content on disk'])

prop('C23', 'Threads can read one document at the same time',
 "When several threads read the same document through a thread-aware file at the same time (iterating, taking values, lengths, sizes and raw bytes, clearing caches), every thread sees exactly what it would see reading alone, under every interleaving. "
 "This includes containers of unknown size and values cached or dropped by another thread meanwhile.",
 ['schedules'], 'all interleavings up to the bounded number of preemptions of 2 threads reading shared elements',
 'No test reads with more than one thread.',
 [core, thr], [('Element.value/gc, MasterElement.value/size/__len__/gc', core), ('ThreadAwareFile', thr)],
 state=[('_value, _size, _length', 'caches shared between threads', core)],
 observe=['every value read in every schedule'])

prop('C24', 'Every traversal shows the same tree',
 "Flat iteration yields every element below the given one exactly once, depth first in file order, down to the given depth; pretty-printing writes one line per element with its offset, size, name, ID, type and value, indented by depth; conversion to XML produces one node per element with the requested attributes; and dumping gives the nested names and values, grouping elements declared as repeatable in order. "
 "All agree with one another and with plain iteration, for every document.",
 ['inputs', 'configurations'], 'all documents of the bounded grammar x traversal options',
 'Tests compare one sample file with a stored printout.',
 [util, core], [('flatiter/pprint/toXml', util), ('MasterElement.dump', core)],
 observe=['outputs of the traversals'])

prop('C25', 'Verification accepts exactly the documents the schema can read',
 "Verifying data succeeds for every well-formed document made only of elements known to the schema with decodable values, and raises for every document that contains an unknown element or an undecodable value below the header, at any depth.",
 ['inputs'], 'all documents of the bounded grammar with at most one defect at every possible position',
 'Tests verify one good and one bad 4-byte string.',
 [core], [('Schema.verify', core)], observe=['return value or exception'])

prop('C26', 'The command-line tools convert faithfully and never overwrite unasked',
 "Each tool writes its output to the named file or, without one, to standard output, with the same content as the library conversion, for every combination of its options, and EBML converted to XML and back by the tools has the same content. "
 "An existing output file of a conversion or view is never changed unless overwriting was requested; a missing input, unknown schema or existing output ends with an error status and message.",
 ['configurations', 'programs'], 'all combinations of tool, options, schema spelling and file existence',
 'Two of the four tool tests cannot run for want of a sample file; the others use one option combination each.',
 ['ebmlite/tools/ebml2xml.py', 'ebmlite/tools/xml2ebml.py', 'ebmlite/tools/view_ebml.py', 'ebmlite/tools/list_schemata.py', 'ebmlite/tools/utils.py'],
 [('load_files', 'ebmlite/tools/utils.py'), ('main', 'ebmlite/tools/*.py')],
 observe=['files on disk', 'standard output', 'exit status'])

prop('C27', 'Element equality is consistent and means what is documented',
 "Two elements are equal exactly if they have the same type, ID, position, size and schema and, for numbers, dates and text, the same value; unknown elements are equal exactly if they have the same ID and contents. "
 "Equality is reflexive, symmetric and transitive over all elements with readable values, never raises for any other object, and does not change when values are cached or dropped. "
 "Two schemata are equal exactly if they define the same elements with the same attributes.",
 ['inputs'], 'all pairs and triples of elements from the bounded document set',
 'Tests compare a few hand-made elements.',
 [core], [('Element.__eq__ and overrides, Schema.__eq__', core)], observe=['== and !='])

prop('C28', 'Schemata can be loaded from several threads at once',
 "Under every interleaving of threads loading or parsing schemata, no load fails, each caller gets a completely built schema of the definition it asked for, and once all loads have finished every further load returns one and the same of the instances handed out.",
 ['schedules'], 'all interleavings up to the bounded number of preemptions of 2 threads loading the same or different schemata',
 'No test loads schemata concurrently.',
 [core], [('loadSchema/parseSchema publishing into the SCHEMATA cache', core)],
 state=[('SCHEMATA', 'process-wide cache', core)], observe=['schemata returned in every schedule'])

prop('C29', 'Payloads are read only when needed',
 "Iterating (plain or flat), indexing, counting or printing without values a document or container reads element headers and the values of elements marked for pre-reading (by default the numeric and date types), but never the payload bytes of other elements, which are read only when their value or raw bytes are asked for. "
 "A pre-read or cached value is available without touching the stream again.",
 ['inputs', 'configurations'], 'all documents of the bounded grammar x schema caching flags, on a recording stream',
 'No test looks at which bytes are read.',
 [core], [('precache, parseElement(nocache), Element.value', core)],
 state=[('_value', 'cached value', core)], observe=['byte ranges read from the stream'])

prop('C30', 'Own handlers, codecs, element types work like built-in ones',
 "A class or factory function substituted as a schema's handler of unknown elements is given each unknown element's stream, position, size, ID and schema, and what it returns is what every kind of reading yields there; known elements and other schemata are not affected, and its errors reach the caller. "
 "A codec added to the collection, or passed as an instance with its own options, is used wherever a built-in one would be, at every depth, with each element's contents and position. "
 "An element added to a schema by code behaves exactly as one defined in the schema's XML, and element types derived from the built-in ones are used as they define.",
 ['inputs', 'configurations'], 'all documents of the bounded grammar x kinds of handlers, codecs and added elements',
 'Tests only ever use the built-in handlers, codecs and element types.',
 [core, util, 'ebmlite/xml_codecs.py'], [('Schema.UNKNOWN, Schema.addElement', core), ('toXml/xml2ebml/pprint codec arguments', util), ('BINARY_CODECS', 'ebmlite/xml_codecs.py')],
 observe=['elements read, arguments the handler and codec received, errors'])

prop('C31', 'Going through a document keeps nothing alive that is not held',
 "Iterating (plain or flat), counting, indexing, verifying, dumping or converting a document of any length keeps no elements or payloads alive beyond those the caller holds and the containers being gone through: the number alive does not grow with the number of elements passed. "
 "Only taking the value of a container keeps its children, until its cache is cleared; nothing is left when the document is dropped.",
 ['histories', 'inputs'], 'all pairs of operation and kind of repeated content, the live elements counted at every access to the stream',
 'No test looks at the elements left alive.',
 [core, util], [('Document/MasterElement.__iter__, __len__, __getitem__', core), ('flatiter/toXml/pprint', util)],
 state=[('_value', 'cached children', core)], observe=['live Element objects and allocated bytes'])

prop('C32', 'Threads working on data of their own never disturb each other',
 "Threads that each read, encode, convert, print or verify documents of their own, sharing only schemata and codecs, get under every interleaving exactly the results and errors each would get alone.",
 ['schedules'], 'all interleavings up to the bounded number of preemptions of 2 threads, for all pairs of operations',
 'No test uses more than one thread.',
 [core, util, 'ebmlite/encoding.py', 'ebmlite/decoding.py', 'ebmlite/xml_codecs.py'], [('module- and class-level state of every module', core), ('toXml/xml2ebml/pprint', util)],
 observe=['results and errors of every thread in every schedule'])

prop('C33', 'Schemata and documents say what they are and where they came from',
 "However a schema is given (text, path, open file or stream), its name is the one given, else its default document type, else its file's base name; its source, full file name, type and version (the defaults of DocType and DocTypeVersion) are those of what it was made from; looking an element up by ID, by name, with 'in' and with get() agree; and its document class is named after it and belongs to it. "
 "A document's name is the one given, else the base name of its stream's file, else its class's name; its file name is its stream's; and the text and XML forms of documents and schemata tell the same.",
 ['inputs', 'configurations'], 'all definitions of the bounded set x ways of giving them x file and given names; all kinds of stream x names',
 'Tests look at the names of two files.',
 [core, util], [('Schema.__init__/get/__contains__/__getitem__/type/version', core), ('Document.__init__', core), ('parseSchema/loadSchema', core), ('toXml', util)],
 observe=['Schema and Document attributes', 'repr()', 'attributes of the XML root'])

prop('C34', 'The schemata that come with ebmlite read and write the formats they are for',
 "Each of the four schemata that come with ebmlite loads by its bare name from anywhere, is listed, and writes the header of its format. "
 "It knows every element of its format (the EBML header and global elements; Matroska's, including what blocks, chapters and signatures contain; those of MIDE recordings, manifests and configuration interfaces) by ID and by name, with its type, its fixed length and whether it may repeat. "
 "At every place the format gives it, each element is read as such with every value, in containers of known and unknown size, next to every other; such documents are verified, printed, converted to XML and back, and written from plain data.",
 ['inputs', 'configurations'], 'all elements of the four formats x their places x values x forms, all pairs of neighbours',
 'Tests read a few sample files, with few kinds of element.',
 ['ebmlite/schemata/', core], [('matroska.xml, mide_ide.xml, mide_manifest.xml, mide_config_ui.xml', 'ebmlite/schemata/'), ('Schema.parse', core)],
 observe=['lookups in the schema', 'elements read', 'bytes written'])

prop('C35', 'Work grows only in proportion to what is gone through',
 "The number of steps and of stream accesses that iterating (plain or flat), counting, verifying, dumping, printing, converting to or from XML, encoding, and loading a schema take is proportional to the number of elements or definitions gone through, and for codecs to the number of bytes: nothing is read or computed over and over (only with the depth of nesting of unknown sizes and of flat iteration may it grow faster). "
 "Loading a document, taking its first elements (plainly, flat or by value), passing over containers of known size, and reading one element cost the same however much follows, is contained or came before, and however large the schema. "
 "What was found once and kept - the length, size and value of an element - is not worked out again when asked for again.",
 ['inputs', 'resources'], 'forests of up to 2-3 elements x repetitions x places x all operations; nesting; data by size; schemata by number of definitions',
 'Tests measure no cost; their documents are small.',
 [core, 'ebmlite/util.py', 'ebmlite/xml_codecs.py'], [('MasterElement.__iter__, size, __len__, value; Document; Schema.verify', core), ('toXml, xml2ebml, pprint, flatiter', 'ebmlite/util.py')],
 observe=['lines of code executed', 'seeks, tells and reads of the stream', 'bytes read'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
