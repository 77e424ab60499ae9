#!/usr/bin/env python3
""" Write properties.jsonl and MANIFEST.json (kept in step). Run from /verif. """
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
CORE, ENC, DEC = 'ebmlite/core.py', 'ebmlite/encoding.py', 'ebmlite/decoding.py'
UTIL, XC, TAF = 'ebmlite/util.py', 'ebmlite/xml_codecs.py', 'ebmlite/threaded_file.py'
SCHEMATA = ['ebmlite/schemata/matroska.xml', 'ebmlite/schemata/mide_ide.xml', 'ebmlite/schemata/mide_config_ui.xml',
            'ebmlite/schemata/mide_manifest.xml']
TOOLS = ['ebmlite/tools/ebml2xml.py', 'ebmlite/tools/xml2ebml.py', 'ebmlite/tools/view_ebml.py',
         'ebmlite/tools/list_schemata.py', 'ebmlite/tools/utils.py']


def P(id, title, statement, over, quant, why, files, mech, observe, tech, level, note):
    return dict(locals())


PROPS = [
 P('C01', 'Encoding then parsing returns exactly what was encoded',
   "For any schema and any data tree that fits it, in every accepted form (dictionaries, name/value tuple lists, lists of these, element names or IDs, lists of values) and with any explicit length, size-field width, default header or unknown-size ('infinite') option, the bytes written are well-formed EBML with exactly those elements, in order, with the documented payload, and parsing them returns the same tree and values. Data that does not fit the schema (unknown names, several values of a single-occurrence element, a wrong Python type, a value too large for a fixed length or size field) is refused with an exception instead of being written as something else. All entry points (schema, document, stream, bytes, single element) write the same bytes.",
   ['inputs', 'configurations'], 'all schemata, value trees, data forms, widths and entry points',
   'tests encode a handful of fixed trees of one bundled schema; sizes at vint boundaries, nesting, unusual forms and fixed lengths are not combined',
   [CORE, ENC, DEC], [('Element.encode / MasterElement.encode / Document.encode', CORE), ('value encoders', ENC)],
   ['encoded bytes', 'parsed elements'],
   'randomised round-trip workload judged by an independent EBML encoder/parser', 'exploration',
   'Held on the generated schemata and trees; trusts the independent encoder in vlib/ref.py.'),
 P('C02', 'Scalar values encode losslessly, minimally, or are refused',
   "Every representable integer, float, string, Unicode string, binary and date decodes to the same value after encoding, in the shortest form when no length is given (8-byte dates and floats; empty for 0.0) and in exactly the requested number of bytes otherwise, padded on the correct side and sign-extended. Values that do not fit an explicit length or the type's range are refused with an exception; strings are the documented exception and are cut to the length, and non-ASCII characters in ASCII strings become '?'. Decoding accepts every legal width, including zero-length and non-minimal payloads, NUL-padded strings, and other bytes in ASCII strings (read as replacement characters).",
   ['inputs'], 'all values, all legal widths, both directions',
   'tests sample a few values per type; sign boundaries of each width, float specials and padded forms need the whole range',
   [ENC, DEC], [('encodeInt/UInt/Float/String/Unicode/Binary/Date', ENC), ('readInt/UInt/Float/String/Unicode/Date', DEC)],
   ['encoder return values', 'decoder return values'],
   'boundary-dense random workload against int.to_bytes/struct reference codecs', 'exploration',
   'All 1- and 2-byte integers in every width are enumerated; wider ones sampled around every power of two.'),
 P('C03', 'IDs and size fields encode and decode exactly, at every width',
   "Every element ID of 1 to 4 bytes and every element size of 1 to 8 bytes written is decoded to the same number with the number of bytes it occupies, sizes are written with the fewest bytes that do not collide with the reserved all-ones 'unknown size', and that reserved value of every width reads as unknown. An explicit width is honoured exactly when the number fits it and refused otherwise; IDs with an impossible first byte are refused when read.",
   ['inputs'], 'all IDs and sizes below 2^56-1 at all widths',
   'tests check a few numbers per width; off-by-one at the all-ones boundary of each width silently corrupts files',
   [ENC, DEC], [('encodeId, encodeSize, getLength', ENC), ('readElementID, readElementSize', DEC)],
   ['encoded bytes', 'decoded number and width'],
   'boundary-dense and exhaustive (1-2 byte) workload against an independent vint codec', 'exploration',
   'Exhaustive for 1- and 2-byte fields, boundaries of all widths, sampled elsewhere. Two pinned defects are known findings.'),
 P('C04', 'Any well-formed EBML file is read as the format says',
   "For any well-formed document of any schema, whatever its layout (non-minimal size fields, empty elements, zero-length values, padding and Void elements, unknown IDs anywhere, misplaced but known elements, sizes beyond 4 GiB), parsing yields every element exactly once, in file order and at its place in the hierarchy, with the right ID, name, type, offset, payload offset, size and value. Elements whose ID is not in the schema appear as unknown binary elements keeping their own ID and content, and the declared type of each known ID decides how its value is decoded.",
   ['inputs', 'programs'], 'all well-formed byte layouts of all schemata',
   'tests read two sample files produced by ordinary muxers; unusual but legal layouts never occur in them',
   [CORE, DEC], [('MasterElement.parseElement, __iter__', CORE), ('Document.__iter__', CORE), ('readElementID/readElementSize', DEC)],
   ['attributes and values of parsed elements'],
   'generated hostile layouts and sparse huge files, judged by an independent parser', 'exploration',
   'Trusts the independent parser; huge offsets are exercised on a virtual sparse stream.'),
 P('C05', "Unknown-size ('infinite') masters read like sized ones",
   "A master element of unknown size, with a size field of any width, at any level, contains exactly the consecutive elements its schema declares as its children plus global elements, up to the first element that is neither, or the end of the file; its reported size, length, children and raw data are those of the same element written with its actual size. Elements following it, nested unknown-size masters and their parents are unaffected.",
   ['inputs', 'configurations'], 'all placements, nestings, widths, terminators and schema shapes (shared, recursive, global children)',
   'tests read two sample live-muxed files; terminators other than end of file, nesting and globals are not covered',
   [CORE], [('MasterElement.size (scan for the end)', CORE), ('MasterElement._isValidChild', CORE)],
   ['size, len, children, raw bytes, following siblings'],
   'paired sized/unknown-size layouts compared through the public API and with a reference parser', 'exploration',
   'Layouts whose end would be ambiguous by the documented rule are not generated.'),
 P('C06', 'Raw data accounts for every byte of the file, unmodified',
   "The raw bytes of a document's root elements, concatenated in order, are exactly the file (and, inside every sized or unknown-size master, the raw bytes of the children are exactly its payload), and an element's raw data is its header followed by its raw value, whatever was read or cached before. Re-assembling elements from raw data reproduces the file byte for byte, and no operation ever writes to the source.",
   ['inputs', 'histories'], 'all documents and access histories',
   'tests compare raw data of one element; conservation is a statement about all elements of all files',
   [CORE], [('Element.getRaw / getRawValue', CORE), ('offset/payloadOffset/size', CORE)],
   ['raw bytes', 'writes seen by the source stream'],
   'conservation monitor (bytes in = bytes out) over generated and sample files with a recording stream', 'exploration',
   'Held on generated layouts and the sample files in the repository.'),
 P('C07', 'What is read does not depend on the order or history of access',
   "For any sequence of operations on a document's elements (iterating partially or fully, interleaved iterators, indexing, len(), size, value, raw data, dump(), clearing caches, moving the shared stream from outside), every operation returns what it returns on a freshly opened document. Clearing caches never changes a result, and the number it returns is the number of values that were cached.",
   ['histories'], 'all interleavings of read operations on shared elements and one shared stream position',
   'tests access elements in one order; a missing seek or a stale cache shows only in particular interleavings',
   [CORE], [('seek before every read', CORE), ('value caching, gc(), _length, _size', CORE)],
   ['result of every operation in a random history'],
   'random operation histories checked online against a sequential model', 'exploration',
   'Single-threaded histories; each operation result is compared with the reference tree.'),
 P('C08', 'Every kind of source gives the same document; ownership is respected',
   "A document opened from a path, Path, open file, unnamed or int-named temporary file, BytesIO, custom read/seek/tell stream or ThreadAwareFile, or from a stream positioned after other data, contains the same elements and values, with offsets relative to the start of the stream. Closing a document (or leaving its 'with' block) closes the file if and only if the document opened it; objects without the needed stream methods are refused.",
   ['inputs', 'configurations'], 'all source kinds and start positions',
   'tests use one or two source kinds on one file',
   [CORE, TAF], [('Document.__init__, close, __exit__', CORE)],
   ['elements per source', 'closed state of the source'],
   'differential monitor across source kinds plus a closed-state monitor', 'exploration',
   'Source kinds listed in the statement; regular files on a local file system.'),
 P('C09', 'Truncated or corrupt input ends cleanly and keeps what precedes it',
   "If a file is cut at any byte, opening it does not fail and iterating yields every element that lies wholly before the cut, at every level, with correct values, before it ends or raises (if the cut lies between two elements, it ends without an error). For arbitrary bytes, opening never fails, and iterating ends by finishing or by raising an ordinary exception, yields the elements of every level in strictly ascending file order with the IDs found in the file, and costs a bounded number of stream operations per element (nested unknown sizes excepted).",
   ['fault_sequences', 'inputs', 'crash_points'], 'every truncation point of generated and sample documents; mutated and random bytes',
   'tests contain no truncated file; every cut point is a different failure',
   [CORE, DEC], [('end-of-file detection in parseElement callers', CORE), ('header readers', DEC)],
   ['elements yielded before the cut', 'stream operations counted'],
   'fault enumeration: every cut point of each document, plus mutation fuzzing with an operation budget', 'fault_enumeration',
   'Every cut point of the documents of the run is tried; termination is judged by counted stream operations, not time.'),
 P('C10', 'EBML to XML and back preserves the document',
   "Converting any document to XML and back to EBML yields a document with the same elements, IDs, order, nesting and values, for every choice of the XML options and binary codec that keeps the data, whether the XML is passed as an object, a file or text, and for integers, floats (including infinities, NaN and every bit of a double), dates, strings with markup or non-ASCII characters, binary data, and unknown elements exported with their IDs. The result converts to the same XML again, apart from offsets and sizes.",
   ['inputs', 'configurations'], 'all XML-representable documents and option combinations',
   'the two tests of this need a missing fixture and fail; others convert one sample file',
   [UTIL, XC, CORE], [('toXml', UTIL), ('xml2ebml, xmlElement2ebml, loadXml', UTIL), ('binary codecs', XC)],
   ['reconverted elements'],
   'round-trip workload over generated and bundled-schema documents with a reference tree as oracle', 'exploration',
   'Characters XML cannot represent are excluded; with ids off, unknown elements cannot be converted back.'),
 P('C11', 'XML to EBML conversion writes what the XML says',
   "For any XML document of a schema's elements, the EBML written contains exactly the elements in the XML (comments and foreign nodes skipped), preceded by the schema's default header when headers are requested and the XML has none; the number returned is the number of bytes written at the stream's current position, and size-field widths given by 'sizeLength' attributes or (for masters) the argument are honoured wherever the content fits. Unknown element names are accepted only with an 'id' attribute and only when allowed, wrong roots are refused, and nothing already in the output is changed.",
   ['inputs', 'configurations'], 'all XML trees, sizeLength/size attributes, headers and unknown options, output kinds',
   'tests convert two files with default options',
   [UTIL], [('xml2ebml', UTIL), ('xmlElement2ebml', UTIL), ('loadXml', UTIL)],
   ['written bytes', 'returned length'],
   'generated XML documents judged by an independent parse of the written bytes', 'exploration',
   'Trusts the reference parser.'),
 P('C12', 'Binary text codecs are lossless in every configuration',
   "For any binary data and any codec configuration (columns, width, offsets, indentation, to a stream or returned), base64 and hex text decodes back to exactly the data, line layout and offset columns are as configured, the count returned when writing to a stream is the amount written, and 'ignore' yields nothing. Text from one configuration decodes with any instance, also after indentation or line breaks were added or removed.",
   ['inputs', 'configurations'], 'all data lengths and configurations',
   'tests use one random block and a few widths; lengths at line boundaries and offsets need all combinations',
   [XC], [('Base64Codec', XC), ('HexCodec', XC), ('IgnoreCodec', XC)],
   ['encoded text', 'decoded bytes', 'returned counts'],
   'random and boundary workload with an independent text layout model', 'exploration',
   'Whitespace-only indentation, as XML and pprint produce.'),
 P('C13', 'ThreadAwareFile gives every thread its own independent read-only file',
   "For every interleaving of operations by any number of threads, each thread sees exactly the results it would get from a private read-only file of its own: its seeks, reads and closes never affect the position, content or open state of another thread, a finished thread's state is never inherited by a new one, and the contexts, iteration and file attributes work alike. No mode or method allows writing; close() affects only the calling thread, closeAll() closes every thread's stream, and cleanup() only forgets closed ones.",
   ['schedules', 'histories'], 'all interleavings of file operations by several threads, at line granularity',
   'the tests never run two threads at chosen interleavings; a shared position shows only under some schedules',
   [TAF], [('getThreadStream', TAF), ('close, closeAll, cleanup', TAF)],
   ['result and position of every operation per thread'],
   'controlled scheduler (trace hooks) exploring interleavings, each thread checked against a private-file model', 'exploration',
   'Interleavings at source-line granularity inside threaded_file.py; GIL-level switches within a line are only stressed.'),
 P('C14', 'Concurrent reading gives every thread the sequential result',
   "When several threads read documents at once, each through its own document or all through one document opened on a ThreadAwareFile, or share a schema while others load, encode, convert, verify or list schemata, every thread obtains exactly what it would obtain alone.",
   ['schedules'], 'interleavings of readers, encoders and converters sharing a schema or a ThreadAwareFile',
   'tests are single-threaded',
   [CORE, TAF, UTIL], [('per-thread streams', TAF), ('no shared mutable parse state', CORE)],
   ['per-thread results'],
   'multi-thread stress with tiny switch interval and stream-level forced switches, results compared with sequential runs', 'exploration',
   'Explores the schedules produced; documents are not shared between threads except through a ThreadAwareFile.'),
 P('C15', 'A schema contains exactly what its XML defines, or is refused',
   "For any schema XML in either format, from text or a file in any encoding, the loaded schema has exactly the defined elements, each reachable by name and by ID, with the declared type, flags (mandatory, multiple, precache, global), length, default, documentation and valid children, however often and abbreviated it is repeated under other parents; two loaded schemata never influence each other. A conflicting redefinition, a missing or malformed ID, name or type, or a wrong root element is refused with an exception.",
   ['programs', 'inputs'], 'all schema documents of both formats, valid and invalid',
   'tests load the bundled schemata and a few hand-written conflicts',
   [CORE], [('Schema._parseSchema, _parseLegacySchema, addElement', CORE)],
   ['attributes of schema and element classes'],
   'generated schemata compared with an independent schema reader; systematic corruptions must be refused', 'exploration',
   'Trusts the independent schema reader; redefinition with a subtype is not judged.'),
 P('C16', 'Schemata are found, cached and listed consistently',
   "Loading a schema by name searches the current directory and then the schema path in order (directories, '{module}' references, module objects, environment additions) and returns the first match, which is also the first file listed for that name; repeating a load, by name, module reference or absolute path, gives the same schema object until a reload gives a new one. Explicit paths, absolute names and named in-memory schemata behave likewise, listing contains every schema file of the given paths and nothing else, and anything not found is reported with an exception without affecting what is cached.",
   ['histories', 'configurations'], 'all sequences of load/parse/list operations over all path configurations',
   'tests load each schema once from the default path',
   [CORE, UTIL], [('loadSchema, parseSchema, listSchemata', CORE), ('_expandSchemaPath, SCHEMA_PATH, SCHEMATA', CORE), ('printSchemata', UTIL)],
   ['identity and source file of returned schemata', 'listed files'],
   'random histories of load/parse/list operations on scratch directory trees checked against a small model', 'exploration',
   'The current directory and SCHEMA_PATH are constant within a history except where re-read explicitly.'),
 P('C17', 'dump() reflects the document and re-encodes to it',
   "Dumping any element or document gives nested dictionaries with every child exactly once: children that may occur several times as lists in file order, others as single values. Encoding the dump gives a document with the same dump, and with the same elements when order across different names does not matter.",
   ['inputs'], 'all documents of all schemata',
   'tests dump one file',
   [CORE], [('MasterElement.dump, Element.dump', CORE)],
   ['dump results'],
   'generated documents, dump compared with the reference tree and its re-encoding', 'exploration',
   'Re-encoding is judged for documents without unknown elements.'),
 P('C18', 'Header and document metadata are read and written faithfully',
   "A document's info, type and version come from its own EBML header, whether or not the header is shown among the root elements; hiding the header removes exactly it and nothing else, and a document without one has empty info. Name, file name, size and start of a document follow from its source and arguments, and a header written by default contains exactly the schema's defaults for the version and type elements (EBMLVersion, EBMLReadVersion, DocType, DocTypeVersion, DocTypeReadVersion).",
   ['inputs', 'configurations'], 'all header contents, presence, options and source kinds',
   'tests look at one sample file',
   [CORE], [('Document.__init__', CORE), ('Document._createHeaders', CORE), ('Schema.version, type', CORE)],
   ['info, type, version, name, filename, size, root elements'],
   'generated headers and sources compared with the reference', 'exploration',
   'The header is the first element, as EBML requires.'),
 P('C19', 'The command-line tools convert faithfully and never clobber',
   "ebml2xml, xml2ebml, view_ebml and list_schemata write exactly what the library produces for the same input, to the named file or to standard output, with any combination of options and any console encoding that the text allows; ebml2xml followed by xml2ebml reproduces the document. The converters and the viewer leave an existing output file untouched, with a non-zero exit status and a message, unless overwriting was asked for; a missing input or schema also gives a message and a non-zero status and writes nothing, and inputs are never modified.",
   ['inputs', 'configurations'], 'all option combinations, documents and states of the output file',
   'the tests of the main conversions fail for a missing fixture; overwriting and option combinations are not tested',
   TOOLS + [UTIL], [('main() of each tool', TOOLS[0]), ('load_files', TOOLS[4])],
   ['output files', 'stdout', 'exit status', 'input files before and after'],
   'tools run in-process and as subprocesses in scratch directories, outputs judged by the library and reference', 'exploration',
   'In-process runs call main() with patched argv; a sample also runs as real subprocesses.'),
 P('C20', 'Generated and validated IDs follow the EBML ID classes',
   "Generated IDs are valid, in the requested class and range, unique, not in the schema and not excluded, in ascending order from the lowest, and as many as requested unless fewer exist. Validation accepts exactly the IDs of classes A to D (0x81-0xFE, 0x407F-0x7FFE, 0x203FFF-0x3FFFFE, 0x101FFFFF-0x1FFFFFFE) and raises for any other number.",
   ['inputs'], 'all schemata, classes, ranges, exclusions and counts; all integers',
   'tests check a handful of IDs',
   [UTIL], [('createID', UTIL), ('validateID', UTIL)],
   ['returned IDs', 'accept/raise'],
   'random calls against a set model; near-exhaustive sweep of the ID space boundaries', 'exploration',
   'Classes A and B exhaustive in quick, C exhaustive in thorough, D and outside sampled densely at boundaries.'),
 P('C21', 'Crawling, indexing and pretty-printing visit each element exactly once',
   "flatiter() yields every descendant exactly once, depth-first in file order, limited to the given depth; len(), indexing, slicing and iteration of documents and masters agree, and out-of-range or unsupported indices raise. pprint() prints one line per element, in that order, with its offset, size, ID, type and (if asked) value, indented by depth, and codecs render exactly the binary contents.",
   ['inputs', 'configurations'], 'all documents, depths, indices and print options',
   'tests print one document and count elements of one file',
   [UTIL, CORE], [('flatiter, pprint', UTIL), ('__len__, __getitem__, __iter__', CORE)],
   ['sequence of elements yielded', 'printed lines'],
   'generated documents, sequences and printed text compared with the reference tree', 'exploration',
   'Values printed are compared with repr() of the reference value.'),
 P('C22', 'Element and schema equality means what it documents',
   "Elements of independently opened copies of a document compare equal exactly to their counterparts: type, ID, offset, size and schema, and for numbers, strings and dates also the value, decide equality, and unknown elements compare by ID and content. Equality is reflexive, symmetric and consistent with !=, never raises for foreign objects, and does not depend on what was read before; schemata are equal exactly when the attributes of their element definitions are.",
   ['inputs', 'histories'], 'all pairs of elements of generated documents',
   'tests compare a few pairs',
   [CORE], [('Element.__eq__ and overrides', CORE), ('Schema.__eq__', CORE)],
   ['results of == and !='],
   'all pairs of elements in generated near-duplicate documents against a definition of equality', 'exploration',
   'NaN values are excluded.'),
 P('C23', 'verify() accepts exactly what the schema can read',
   "Verifying data returns True for every well-formed document consisting of elements the schema defines with decodable values, at any depth and in any layout. It raises for every document that contains, anywhere (the header included), an element the schema does not define, a value that cannot be decoded as declared, or bytes that cannot be an element ID.",
   ['inputs'], 'all well-formed documents and single-defect variants of them',
   'tests verify one good and one bad document',
   [CORE], [('Schema.verify', CORE)],
   ['verify() outcome'],
   'generated documents with one planted defect at every position', 'exploration',
   'Truncation is not a defect verify() promises to find.'),
 P('C24', 'Operations leave no trace in shared state',
   "No operation, whether it succeeds or fails (encoding, parsing, conversions with unknown elements, failed loads, refused redefinitions), changes the behaviour of later operations: schemata, element classes, module-level settings, caller-supplied data and arguments are the same afterwards, and repeating an operation repeats its result.",
   ['histories', 'fault_sequences'], 'all histories of successful and failing operations',
   'tests run each operation once, from a fresh state',
   [CORE, UTIL, ENC, XC], [('element classes shared by all documents', CORE), ('module globals', CORE)],
   ['results of a fixed probe battery before and after each history', 'snapshots of arguments and globals'],
   'random histories with a before/after probe battery and snapshots of public state', 'exploration',
   'The caches of loaded schemata are allowed to grow, as documented.'),
 P('C25', 'A source or output I/O error surfaces and leaves a retry correct',
   "If the source raises an I/O error during any single read, seek or tell after a document was opened, the operation in progress raises it instead of returning wrong, partial or missing data, and repeating the operation afterwards gives the correct result. The same holds after an interruption (KeyboardInterrupt) at any point; and if the output fails while encoding or converting, the error reaches the caller, and the schema and data can be used again.",
   ['fault_sequences', 'crash_points'], 'an error at every individual stream operation of each workload, and an interruption at any line executed',
   'tests never inject an I/O error; each operation is a separate failure point',
   [CORE, UTIL, DEC], [('only end of file ends iteration', CORE), ('caches set only after success', CORE)],
   ['exception type', 'result of the retry'],
   'fault enumeration: every stream operation of each workload is made to fail once', 'fault_enumeration',
   'Single faults; errors while a Document is being constructed are swallowed by design and not injected.'),
 P('C26', 'Values are read lazily, once, and exactly as declared',
   "Opening and crawling a document reads element headers and the values of elements declared for pre-caching (numbers and dates by default), never the payload of binary, string, unknown or void elements or of masters not entered, so huge files can be crawled with little I/O. A value once read, or read at parse time, is returned again without touching the source and as the same object until caches are cleared; raw data never comes from the cache.",
   ['inputs', 'histories'], 'all documents, precache settings and access histories',
   'tests cannot see which bytes are read; a change that reads everything still passes them',
   [CORE], [('precache', CORE), ('lazy value properties', CORE)],
   ['byte ranges read from a recording stream'],
   'I/O monitor: byte ranges read compared with the ranges the declared laziness allows', 'exploration',
   'Judged on ranges and counts of reads at the stream boundary.'),
 P('C27', 'XML export describes exactly the parsed document',
   "For any document, the XML has one node per element, in order and nesting, named after the element, with exactly the requested attributes (ID, type, offset, size), its value or its binary content encoded by the chosen codec, and document name, schema and source on the root; the contents of void elements are never exported, but their size always is. Appending to a given parent adds exactly one subtree and changes nothing else.",
   ['inputs', 'configurations'], 'all documents and option combinations',
   'tests compare one XML export',
   [UTIL, XC], [('toXml', UTIL)],
   ['XML tree'],
   'generated documents and options, XML tree compared node by node with the reference tree', 'exploration',
   'Values are compared with str() of the reference value.'),
 P('C28', 'The bundled schemata keep the file formats they stand for',
   "Every bundled schema (Matroska and the Mide formats), loaded by name, defines the standard EBML header and global elements as the EBML specification does, its format's elements under the IDs, names, value types, places in the hierarchy, multiplicity and defaults that existing files and programs rely on (for Matroska, those of its specification), and so reads, writes, exports and imports documents of that format exactly.",
   ['inputs', 'configurations'], 'all elements of all bundled schemata, in all places, and documents made of them',
   'tests read a few sample files, in which most elements of the formats never occur',
   SCHEMATA + [CORE], [('element definitions', SCHEMATA[0]), ('loadSchema', CORE)],
   ['parsed elements', 'encoded bytes', 'attributes of element classes'],
   'documents holding every element in every place, judged by a format table independent of the files', 'exploration',
   'The Mide formats have no public specification: their reference is the definitions as released (golden/).'),
 P('C29', 'Substituted handlers of unknown elements and added codecs are honoured',
   "When a schema's handler of unknown elements (UNKNOWN) is substituted by a class or an element-producing callable, every unknown element read by that schema from then on, wherever it occurs, is what the handler made from its stream, offset, size, payload offset, ID and schema; it takes part in iteration, indexing, crawling, dumping, raw access and export like any other, errors of the handler surface, and other schemata are not affected. A codec added to BINARY_CODECS or passed as an instance is used for every binary element, in both directions, by export, printing, import and the tools.",
   ['inputs', 'configurations'], 'all documents with unknown or binary elements, all forms of handlers and codecs, all ways of access',
   'tests use neither; what is documented for users to substitute is exercised only by users',
   [CORE, UTIL, XC], [('MasterElement.parseElement', CORE), ('Schema.UNKNOWN', CORE), ('BINARY_CODECS', XC), ('toXml', UTIL), ('pprint', UTIL), ('xmlElement2ebml', UTIL)],
   ['arguments of handlers and codecs', 'elements delivered', 'XML and text'],
   'recording handlers and codecs; every element delivered compared with what the handler made and with the reference', 'exploration',
   'Handlers and codecs are those of the harness.'),
 P('C30', 'Files are closed and memory is released when use ends',
   "Every file the library opens for an operation (schemata, XML, outputs) is closed when the operation ends, whether it succeeds or fails, and the file of a document opened by path is closed when the document is closed, left by 'with', lost, or cannot be opened; files of the caller stay open, a ThreadAwareFile holds at most one handle per thread and none after closeAll(), and nothing but the named output is created. Documents, streams, elements and values are released once the caller drops them or clears the caches, so operations can be repeated, failing or not, without needing ever more memory, handles or threads.",
   ['inputs', 'histories', 'fault_sequences'], 'all sequences of operations, successful or failing at any stage, and any number of repetitions',
   'tests run each operation a few times and never look at handles or memory',
   [CORE, UTIL, TAF], [('Document.close', CORE), ('Element.gc', CORE), ('loadSchema', CORE), ('listSchemata', CORE), ('xml2ebml', UTIL), ('printSchemata', UTIL), ('closeAll', TAF)],
   ['open file descriptors', 'folders', 'live objects', 'traced memory'],
   'monitor of descriptors, folders, live objects and traced memory over random histories of succeeding and failing operations', 'exploration',
   'Handles are judged with the garbage collector off and exceptions kept alive; memory after a collection. Schemata and util.loadXml() without a file name (leaves a temporary file) are not judged.'),
]

BATTERY = 'Runtime monitoring: %s'


def main():
    with open(V / 'properties.jsonl', 'w') as f:
        for p in PROPS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
            assert len(p['title']) <= 80, p['id']
            assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
    have = [p for p in PROPS if (V / 'checks' / (p['id'].lower() + '.py')).exists()]
    missing = [p for p in PROPS if p not in have]
    man = {
        'version': 1,
        'setup_cmd': 'python3 tools/selftest.py',
        'checks': [{'property': p['id'],
                    'quick_cmd': 'VERIF_TIER=quick python3 run.py %s' % p['id'],
                    'thorough_cmd': 'VERIF_TIER=thorough python3 run.py %s' % p['id'],
                    'evidence_file': 'evidence/%s.json' % p['id'],
                    'technique': BATTERY % p['tech'], 'level': p['level'],
                    'level_note': p['note']} for p in have],
        'not_applicable': [{'property': p['id'], 'reason': 'check not built yet'} for p in missing],
        'notes': 'No hooks in /repo: all instrumentation (stream proxies, trace-based scheduler, state '
                 'snapshots) is attached from outside. Repairs are the fix: commits, listed in KNOWN_FINDINGS.txt.',
    }
    (V / 'MANIFEST.json').write_text(json.dumps(man, indent=1) + '\n')


main()
