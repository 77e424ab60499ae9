#!/usr/bin/env python3
""" Write KNOWN_FINDINGS.txt: recorded defects, and repaired ones with their commits. """
import subprocess
from pathlib import Path

KNOWN = [
 ('C03', 'size-over-8-bytes', 'encodeSize(v) without explicit length and v >= 2**56-1 returns wrong bytes instead of '
  'refusing (2**56-1 becomes the unknown-size marker, larger values lose bits); pinned by tests (encodeSize(2**60))'),
 ('C03', 'unknown-size-explicit-width', 'encodeSize(None, n) with n > 1 returns n bytes ff, which is not an EBML unknown '
  'size of n bytes and does not read back as one; documented and pinned by tests'),
 ('C19', 'pretty-xml-whitespace', 'ebml2xml without --single loses newlines, tabs and carriage returns in string values '
  '(xml.dom.minidom writes them unescaped in attributes)'),
]
FIXED = {
    "threads not started by 'threading' inherited the ThreadAwareFile stream of a finished one": 'C13',
    "loadSchema() read schema files in the platform's encoding, not their own": 'C15',
    "ebml2xml wrote XML declared as UTF-8 in the console's encoding": 'C19',
    'raw data of an element whose unknown size was not determined yet': 'C06',
 'document class names unusable as XML tags, for unusual schema names': 'C10',
 'ebml2xml, view_ebml and list_schemata failed to start without docstrings (python -OO)': 'C19',
 'verify() did not check the elements in the EBML header': 'C23',
 'listSchemata(absolute=False) omitted the schemata of module objects': 'C16',
 'listSchemata() lists full paths for relative directories too': 'C16',
 'cleanup() could drop a stream reopened by its thread meanwhile': 'C13',
 "race of a ThreadAwareFile access with another thread's cleanup()": 'C13',
 'size and length of a Document from a stream of unknown size': 'C07',
 'infinite elements with an explicit lengthSize': 'C01',
    # commit subject -> property
 'encodeSize() refuses an explicit length too short for the size': 'C03',
 'encode documents and master elements given as lists of name/value tuples': 'C01',
 'the encoded element size always matches the payload written': 'C01',
 'ThreadAwareFile.cleanup() (and close()) modified its dictionary while iterating': 'C13',
 'ThreadAwareFile is read-only however the mode is given': 'C13',
 'a ThreadAwareFile in a with statement stays thread-aware': 'C13',
 'ThreadAwareFile implements the rest of the standard read-only file methods': 'C13',
 'a new thread does not inherit the ThreadAwareFile stream of a finished one': 'C13',
 'toXml() escaped non-ASCII text twice': 'C27',
 'xml2ebml() converts date elements': 'C10',
 'xml2ebml() converts infinite and NaN floats': 'C10',
 'xml2ebml() converts integer elements of length 0': 'C10',
 'converting an unknown XML element modified the UnknownElement class': 'C24',
 'toXml() made unserializable XML if the schema was not loaded from a file': 'C27',
 'load schemata that define no default DocType': 'C15',
 'load documents from files without a filename': 'C08',
 'Base64Codec with 0 columns': 'C12',
 "xml2ebml() failed on the 'sizeLength' attribute of nested master elements": 'C11',
 'xml2ebml() did not refuse nested unknown elements if told to': 'C11',
 'xml2ebml() wrote a truncated size for master elements that grew': 'C11',
 'createID() never generated the maximum ID': 'C20',
 'loadXml() accepts the filename of a schema': 'C11',
 'MasterElement.gc() counts its own cached value': 'C07',
 'printSchemata() modified the list of paths it was given': 'C24',
 'the tools can write binary output to stdout': 'C19',
 'encodeUnicode() accepts bytes, as it says': 'C02',
 'loadSchema() ignored an explicit list of paths if the name was already loaded': 'C16',
 'xml2ebml() wrote two headers if the XML root is the header itself': 'C11',
 'binary codecs with upper-case names could not be chosen in the tools': 'C29',
 'xml2ebml lost the rest of binary data after a comment kept by the XML parser': 'C11',
 'schemata in zipped packages could be neither loaded by module reference nor listed': 'C16',
 'schema attribute global="true" was ignored': 'C15',
 'xml2ebml() closes the file it opened if the conversion fails': 'C30',
 "listSchemata() skips XML files in encodings that can't be read": 'C16',
 "a Document that can't use the file it opened closes it": 'C30',
}
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse'],
                     capture_output=True, text=True).stdout.splitlines()
out = ['# known: a genuine defect that is recorded, not repaired; its check prints KNOWN-FINDING when it reproduces.',
       '# fixed: a repaired defect; suppresses nothing.']
out += ['known: property=%s key=%s %s' % k for k in KNOWN]
for line in log:
    h, s = line.split(' ', 1)
    if s.startswith('fix: '):
        out.append('fixed: property=%s %s %s' % (FIXED[s[5:]], h, s[5:]))
Path(__file__).resolve().parent.parent.joinpath('KNOWN_FINDINGS.txt').write_text('\n'.join(out) + '\n')
